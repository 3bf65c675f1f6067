#include "c20.hpp"
using std::string; using std::vector; using std::map; using std::pair; using std::tuple; using std::array; using std::unique_ptr; using std::shared_ptr;
#define L_F3(R, O, D, N) R(a, int) O(x, double) R(z, int)
CLS(F3, L_F3)
using VD = std::variant<std::string, double, vector<double>, F3>;
template<typename W> static void in(Run& R, const string& n) {
    bad<vector<W>>(R, "vector<" + n + ">"); bad<array<W, 2>>(R, "array<" + n + ">"); bad<map<string, W>>(R, "map<" + n + ">"); bad<std::unordered_map<string, W>>(R, "unordered_map<" + n + ">");
    bad<pair<W, int>>(R, "pair<" + n + ", int>"); bad<tuple<int, W, W>>(R, "tuple<int, " + n + ", " + n + ">"); bad<unique_ptr<W>>(R, "unique_ptr<" + n + ">"); bad<shared_ptr<W>>(R, "shared_ptr<" + n + ">");
}
void define_c(Run& R) {
    in<ymd>(R, "date"); in<pair<double, float>>(R, "pair<double, float>"); in<std::set<double>>(R, "set<double>"); in<tuple<float, ymd>>(R, "tuple<float, date>");
    bad<std::set<SI>>(R, "set<shared_ptr<int>>"); bad<std::set<vector<double>>>(R, "set<vector<double>>"); bad<std::set<pair<string, double>>>(R, "set<pair<string, double>>");
    bad<MId>(R, "matrix class"); bad<MOpt>(R, "matrix of optionals"); bad<Nest>(R, "Nest"); bad<List>(R, "List"); bad<MTree>(R, "MTree"); bad<SMix>(R, "SMix"); bad<SVar>(R, "SVar"); bad<SDer>(R, "SDer"); bad<SOpt>(R, "SOpt"); bad<CVar>(R, "CVar");
    bad<vector<vector<vector<vector<double>>>>>(R, "vector^4<double>");
}
