#include "c20.hpp"
using std::string; using std::vector; using std::map; using std::pair; using std::tuple; using std::array; using std::unique_ptr; using std::shared_ptr;
void define_b(Run&); void define_c(Run&);
#define L_F1(R, O, D, N) R(x, double)
CLS(F1, L_F1)
#define L_F2(R, O, D, N) R(a, int) R(x, float)
CLS(F2, L_F2)
#define L_F2f(R, O, D, N) R(x, float) R(a, int)
CLS(F2f, L_F2f)
#define L_FO(R, O, D, N) O(x, double) R(a, int) O(p, unique_ptr<int>) D(d, 1.5, double) O(y, float)
CLS(FO, L_FO)
#define L_FB(R, O, D, N) R(b, double) O(bo, double)
CLS(FB, L_FB)
#define L_FD(R, O, D, N) R(d, int) O(dd, double)
CLSD(FD, FB, L_FD)
#define L_FD2(R, O, D, N) R(e, string) R(f, double) R(g, int)
CLSD(FD2, FD, L_FD2)
#define L_FN(R, O, D, N) R(n, F1) R(v, vector<F2>) R(m, map<string, FD>) O(o, FO) R(tail, int)
CLS(FN, L_FN)
template<typename T> static void raw(Run& R, const char* name, const T& v, bool good) {
    R.at(name); R.count(Run::hash(name + std::to_string(good)));
    for (int mode = 0; mode < 4; ++mode) {
        string got = "q"; int r = 2;
        try {
            if (mode == 0) r = persistence::write_to_string(v, got);
            else if (mode == 1) { persistence::write_to_string(v); r = 1; }
            else if (mode == 2) { rapidjson::Document d; r = persistence::serialize_to_document(v, d); }
            else { persistence::serialize_to_document(v); r = 1; }
        } catch (const persistence::JsonSerializationError&) { r = mode % 2 ? 0 : 2; } catch (...) {}
        if (r == 2) { R.fail("wrong channel"); return; }
        if (bool(r) != good) { R.fail(good ? "representable object refused" : "null pointer written"); return; }
        if (!r && got != "q") { R.fail("target modified although writing fails"); return; }
    }
}
void define(Run& R) {
    R.unit("raw pointers", [&R] {
        double x = 1.5, nan = std::numeric_limits<double>::quiet_NaN(); double *p = &x, *z = nullptr, *n = &nan, **pp = &p, **zz = &z, **none = nullptr;
        F2 c; F2 *pc = &c, *zc = nullptr; F2 cb; cb.x = std::numeric_limits<float>::infinity(); F2* bc = &cb;
        raw(R, "double*", p, true); raw(R, "null double*", z, false); raw(R, "double* to NaN", n, false); raw(R, "double**", pp, true); raw(R, "double** to null", zz, false); raw(R, "null double**", none, false);
        raw(R, "class*", pc, true); raw(R, "null class*", zc, false); raw(R, "class* with infinity", bc, false);
        for (std::size_t k = 0; k < 6; ++k) {
            vector<double*> v(6, p); raw(R, "vector<double*>", v, true); v[k] = z; raw(R, "vector<double*> with null", v, false); v[k] = n; raw(R, "vector<double*> with NaN", v, false);
            vector<F2*> w(6, pc); raw(R, "vector<class*>", w, true); w[k] = zc; raw(R, "vector<class*> with null", w, false); w[k] = bc; raw(R, "vector<class*> with infinity", w, false);
        }
        raw(R, "pair<double*>", pair<double*, double*>(p, z), false); raw(R, "pair<double*> 2", pair<double*, double*>(z, p), false); raw(R, "map<double*>", map<string, double*>{ { "a", p }, { "b", z } }, false); raw(R, "map<double*> ok", map<string, double*>{ { "a", p }, { "b", p } }, true);
    });

    R.extra_names = { "objects_with_a_bad_value" };
    bad<float>(R, "float"); bad<double>(R, "double"); bad<ymd>(R, "date"); bad<unique_ptr<int>>(R, "unique_ptr<int>"); bad<shared_ptr<int>>(R, "shared_ptr<int>");
    bad<F1>(R, "class with 1 member"); bad<F2>(R, "class with 2 members"); bad<F2f>(R, "class with bad first member"); bad<FO>(R, "class with optional members"); bad<FB>(R, "base class"); bad<FD>(R, "derived class"); bad<FD2>(R, "twice derived class"); bad<FN>(R, "class with nested classes");
    bad<B1>(R, "B1"); bad<D1>(R, "D1"); bad<D2>(R, "D2");
    bad<vector<double>>(R, "vector<double>"); bad<vector<float>>(R, "vector<float>"); bad<std::set<double>>(R, "set<double>"); bad<array<double, 3>>(R, "array<double, 3>"); bad<map<string, double>>(R, "map<double>"); bad<std::unordered_map<string, double>>(R, "unordered_map<double>");
    bad<pair<double, int>>(R, "pair<double, int>"); bad<pair<int, double>>(R, "pair<int, double>"); bad<tuple<double, float, string, double>>(R, "tuple<double, float, string, double>"); bad<tuple<double>>(R, "tuple<double>");
    bad<unique_ptr<double>>(R, "unique_ptr<double>"); bad<shared_ptr<double>>(R, "shared_ptr<double>"); bad<unique_ptr<unique_ptr<double>>>(R, "unique_ptr<unique_ptr<double>>");
    define_b(R); define_c(R);
}
