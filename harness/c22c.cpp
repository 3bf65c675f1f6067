#include "c22.hpp"
void define_c(Run& R) {
    variant<VN>(R, "variant<variant<int, string>, vector<variant>, bool>");
    variant<V<unique_ptr<CAB>, unique_ptr<string>, vector<unique_ptr<int>>>>(R, "variant<unique_ptrs>");
    variant<V<vector<V<int, string>>, vector<V<bool, vector<int>>>>>(R, "variant<vector<variant>>");
    variant<vector<VI>>(R, "vector<variant>");
    variant<map<string, VI>>(R, "map<variant>");
    variant<CHold>(R, "class with variants");
    variant<tuple<VI, VI>>(R, "tuple<variant, variant>");
    variant<unique_ptr<V<int, string>>>(R, "unique_ptr<variant>");
    variant<array<V<int, string>, 3>>(R, "array<variant, 3>");
}
