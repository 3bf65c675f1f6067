#include "c20.hpp"
using std::string; using std::vector; using std::map; using std::pair; using std::tuple; using std::array; using std::unique_ptr; using std::shared_ptr;
#define L_F3(R, O, D, N) R(a, int) O(x, double) R(z, int)
CLS(F3, L_F3)
using VD = std::variant<std::string, double, vector<double>, F3>;
template<typename W> static void in(Run& R, const string& n) {
    bad<vector<W>>(R, "vector<" + n + ">"); bad<array<W, 2>>(R, "array<" + n + ">"); bad<map<string, W>>(R, "map<" + n + ">"); bad<std::unordered_map<string, W>>(R, "unordered_map<" + n + ">");
    bad<pair<W, int>>(R, "pair<" + n + ", int>"); bad<tuple<int, W, W>>(R, "tuple<int, " + n + ", " + n + ">"); bad<unique_ptr<W>>(R, "unique_ptr<" + n + ">"); bad<shared_ptr<W>>(R, "shared_ptr<" + n + ">");
}
void define_b(Run& R) {
    in<vector<double>>(R, "vector<double>"); in<F3>(R, "class"); in<unique_ptr<double>>(R, "unique_ptr<double>"); in<shared_ptr<double>>(R, "shared_ptr<double>"); in<map<string, double>>(R, "map<double>");
    bad<VD>(R, "variant"); in<VD>(R, "variant");
}
