#include "c25.hpp"
void define_w(Run& R) {
    user<Wrap<int>>(R, "Wrap<int>"); user<vector<Wrap<int>>>(R, "vector<Wrap<int>>"); user<std::set<Wrap<long>>>(R, "set<Wrap<long>>"); user<H3<Wrap<unsigned short>>>(R, "class of five with Wrap<unsigned short>"); user<tuple<Wrap<double>, Wrap<bool>>>(R, "tuple<Wrap<double>, Wrap<bool>>");
    user<Wrap<string>>(R, "Wrap<string>"); user<map<string, Wrap<string>>>(R, "map<Wrap<string>>"); user<Wrap<vector<Wrap<int>>>>(R, "Wrap<vector<Wrap<int>>>"); user<vector<Wrap<C3>>>(R, "vector<Wrap<class>>"); user<Wrap<Wrap<C2>>>(R, "Wrap<Wrap<class>>"); user<H2<Wrap<map<string, Wrap<int>>>>>(R, "class with Wrap<map<Wrap<int>>>");
    user<Wrap<unique_ptr<Wrap<int>>>>(R, "Wrap<unique_ptr<Wrap<int>>>"); user<unique_ptr<Wrap<C2>>>(R, "unique_ptr<Wrap<class>>"); user<vector<Wrap<U<STR>>>>(R, "vector<Wrap<user string>>"); user<Wrap<U<ARR>>>(R, "Wrap<user array>"); user<vector<Wrap<U<NUM>>>>(R, "vector<Wrap<user number>>");
    user<vector<Pass<string>>>(R, "vector<Pass<string>>"); user<Pass<vector<int>>>(R, "Pass<vector<int>>"); user<vector<Pass<vector<Pass<U<OBJ>>>>>>(R, "vector<Pass<vector<Pass<user object>>>>"); user<map<string, Pass<C3>>>(R, "map<Pass<class>>"); user<H3<Pass<C2>>>(R, "class of five with Pass<class>"); user<pair<Pass<map<string, int>>, Pass<bool>>>(R, "pair<Pass<map>, Pass<bool>>");
    user<Pass<Pass<U<STR>>>>(R, "Pass<Pass<user string>>"); user<std::set<Pass<string>>>(R, "set<Pass<string>>"); user<H1o<Pass<unique_ptr<string>>>>(R, "class of one optional Pass<unique_ptr<string>>");
    user<Wrap<std::variant<int, string>>, false>(R, "Wrap<variant>"); user<std::variant<Wrap<int>, Wrap<C2>>, false>(R, "variant<Wrap<int>, Wrap<class>>");
}
