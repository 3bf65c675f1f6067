// C06: integers are exact or refused, in both readers and both writers, alone and nested.
#include "lib.hpp"

static const std::vector<std::string>& literals(bool th) {
    static std::vector<std::string> L;
    if (!L.empty()) return L;
    std::set<std::string> s;
    auto add = [&](__int128 x) {
        bool neg = x < 0; unsigned __int128 m = neg ? -static_cast<unsigned __int128>(x) : static_cast<unsigned __int128>(x);
        std::string d; do { d.insert(d.begin(), char('0' + int(m % 10))); m /= 10; } while (m);
        s.insert(neg ? "-" + d : d);
    };
    for (int x = -70000; x <= 140000; ++x) if (th || (x > -700 && x < 700) || (x > -33000 && x < -32600) || (x > 32600 && x < 33000) || (x > 65300 && x < 65800) || (x < -65300 && x > -65800)) add(x);
    int w = th ? 300 : 12;
    for (int b = 0; b <= 100; ++b) for (int d = -w; d <= w; ++d) { __int128 p = static_cast<__int128>(1) << b; add(p + d); add(-p + d); }
    for (int b = 6; b <= 64; ++b) for (int c = 0; c < b; ++c) { __int128 p = (static_cast<__int128>(1) << b) + (static_cast<__int128>(1) << c); add(p); add(-p); add(p - 1); add(-p - 1); }   // wrap-around candidates
    __int128 t = 1;
    for (int e = 0; e < 30; ++e, t *= 10) for (int k = 1; k <= 9; ++k) for (int d = -1; d <= 1; ++d) { add(t * k + d); add(-(t * k + d)); }
    std::vector<std::string> ints(s.begin(), s.end());
    for (auto& i : ints) if (i.size() <= 6 || (i.size() >= 10 && i.size() <= 11) || (i.size() >= 18 && i.size() <= 20)) {
        if (i.size() > 3 && !th && Run::hash(i) % 7) continue;     // deterministic thinning of the decorated forms only
        s.insert(i + ".0"); s.insert(i + ".5"); s.insert(i + "e0"); s.insert(i + "e1"); s.insert(i + "E-1"); s.insert(i + ".25e2");
    }
    for (auto x : { "1e400", "1e-400", "0.0", "-0.0", "0e0", "0e5", "123456789012345678901234567890", "-123456789012345678901234567890", "1e18", "1e19", "1e20", "9.223372036854775807e18", "0.99999999999999999999", "127.00000000000000000001", "255e0", "25.5e1", "2550e-1" }) s.insert(x);
    s.erase("-0");
    L.assign(s.begin(), s.end());
    return L;
}
static void check(Run& R, const IType& t, const std::string& text, const std::string& id) {
    Node n;
    JParser jp(text);
    if (!jp.document(n)) return;
    bool over = jp.overflow;      // rejected as malformed by either reader: still a refusal
    R.at(t.name, text);
    R.count(Run::hash(id + "|" + text));
    Ref r = ref_read(t, n, true);
    bool want = r.ok && !over;
    R.extra(want ? 0 : 1, 1);
    auto judge = [&](const char* f, const Out& o) {
        if (o.k == Out::Other) { R.fail(std::string(f) + ": " + o.str()); return; }
        if (o.ok() != want) { R.fail(std::string(f) + (o.ok() ? " accepts " : " refuses ") + show(text) + " for " + t.name); return; }
        if (o.ok() && !t.eq(*o.v, *r.v)) { Out w = o_write(t, *o.v); R.fail(std::string(f) + " reads " + show(text) + " as " + show(w.text)); }
    };
    if (t.parsable) judge("parse", o_parse(t, text));
    judge("deserialize", o_deser(t, text));
}
void define_c06i(Run& R);
void define_c06w(Run& R);
void define(Run& R) {
    R.extra_names = { "representable_literals", "unrepresentable_literals" };
    bool th = R.thorough();
    static const std::vector<std::string> ints = { "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "E8", "EU8", "E16", "EU16", "EInt", "E64", "EU64" };
    for (auto& name : ints) {
        IType* t = find_type(name);
        if (!t) continue;
        std::size_t N = literals(th).size(), step = 4000;
        for (std::size_t b = 0; b < N; b += step) R.unit("literals " + name + " #" + std::to_string(b), [&R, t, b, step, th] {
            auto& L = literals(th);
            for (std::size_t i = b; i < L.size() && i < b + step && !R.stop(); ++i) check(R, *t, L[i], t->name);
            R.sample(t->name + " <- " + L[b]);
        });
        // every value of the 8- and 16-bit types, boundary ladder for the others: written digits and round trip
        R.unit("write " + name, [&R, t] {
            for (std::size_t i = 0; i < t->count(0); ++i) {
                ValP v = t->make(i, 0);
                bool rep; Node n = t->enc(*v, rep);
                R.at(t->name, n.s); R.count(Run::hash(t->name + "|w|" + n.s));
                Out w = o_write(*t, *v), w2 = o_writeT(*t, *v);
                rapidjson::Document d; Out s = o_ser(*t, *v, d);
                if (!w.ok() || w.text != n.s || !w2.ok() || w2.text != n.s) R.fail("integer " + n.s + " is written as " + show(w.text) + " / " + show(w2.text));
                if (!s.ok() || s.text != n.s) R.fail("integer " + n.s + " is serialized as " + show(s.text));
            }
        });
    }
    // hosts: every integer position inside containers, classes, pointers, variants
    struct Host { const char* type; const char* pre; const char* post; };
    static const std::vector<Host> hosts = { { "std::vector<int>", "[", "]" }, { "std::vector<int>", "[1,2,", ",3]" }, { "std::vector<char>", "[", "]" }, { "std::vector<EU16>", "[0,", "]" }, { "std::set<int>", "[", "]" }, { "std::map<std::string, int>", "{\"a\":", "}" }, { "std::map<std::string, E8>", "{\"a\":1,\"b\":", "}" },
        { "std::unordered_map<std::string, int>", "{\"a\":", "}" }, { "std::array<int, 3>", "[1,", ",3]" }, { "std::array<int, 1>", "[", "]" }, { "std::pair<int, std::string>", "[", ",\"\"]" }, { "std::tuple<int>", "[", "]" }, { "std::tuple<int, std::string, bool>", "[", ",\"\",true]" },
        { "std::unique_ptr<int>", "", "" }, { "std::shared_ptr<int>", "", "" }, { "std::unique_ptr<std::unique_ptr<int>>", "", "" }, { "C1", "{\"only\":", "}" }, { "C1d", "{\"only\":", "}" }, { "C2", "{\"a\":", ",\"b\":\"\"}" }, { "C2o", "{\"first\":", ",\"second\":1.5}" }, { "C5", "{\"id\":", ",\"id_\":1}" }, { "Der", "{\"base_r\":", ",\"der_r\":\"\"}" },
        { "V1", "", "" }, { "V6", "", "" }, { "std::vector<std::vector<std::vector<int>>>", "[[[", "]]]" }, { "C8", "{\"bool_value\":true,\"char_value\":", ",\"short_value\":1,\"long_value\":1,\"float_value\":1.0,\"double_value\":1.0,\"string_value\":\"\",\"enum_value\":\"Du\"}" },
        { "C8", "{\"bool_value\":true,\"char_value\":1,\"short_value\":", ",\"long_value\":1,\"float_value\":1.0,\"double_value\":1.0,\"string_value\":\"\",\"enum_value\":\"Du\"}" }, { "C8", "{\"bool_value\":true,\"char_value\":1,\"short_value\":1,\"long_value\":", ",\"float_value\":1.0,\"double_value\":1.0,\"string_value\":\"\",\"enum_value\":\"Du\"}" } };
    for (auto& h : hosts) {
        IType* t = find_type(h.type);
        if (!t) continue;
        R.unit(std::string("nested ") + h.type + " " + h.pre, [&R, t, &h, th] {
            std::size_t k = 0;
            for (auto& l : literals(th)) {
                if (R.stop()) break;
                if (!th && l.size() > 3 && l.size() < 18 && l.find_first_of(".eE") == std::string::npos && ++k % 3) { long long v = std::strtoll(l.c_str(), nullptr, 10); long long a = v < 0 ? -v : v; if ((a & (a - 1)) && ((a + 1) & a) && ((a - 1) & (a - 2))) continue; }
                if (std::string(h.type) == "V6" && (l.find_first_of(".eE") != std::string::npos)) continue;
                Node n; if (jparse(l, n) && (std::string(h.type) == "V6") && left_open(n)) continue;
                check(R, *t, h.pre + l + h.post, std::string(h.type) + h.pre);
            }
        });
    }
    // matrix: each integer-like field of the matrix classes takes each boundary literal
    for (auto name : { "MId", "MOpt", "MVec", "MSet", "MArr", "MMap", "MUp", "MSp", "MPr", "MTup", "MUMap" }) {
        IType* t = find_type(name);
        if (!t) continue;
        bool rep; Node base = t->enc(*t->make(0, 2), rep);
        for (std::size_t f = 0; f < base.a.size(); ++f) R.unit(std::string("matrix ") + name + " " + base.keys[f].s, [&R, t, f, th] {
            bool rep; Node n = t->enc(*t->make(0, 2), rep);
            static const char* V[] = { "127", "128", "-128", "-129", "255", "256", "-1", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.0", "1.5", "1e2", "4294967297", "65537", "257" };
            Node* x = &n.a[f];
            while (x->k == Node::Arr || x->k == Node::Obj) { if (x->a.empty()) return; x = &x->a[0]; }
            if (x->k != Node::Num || x->s.find_first_of(".e") != std::string::npos) return;
            for (auto v : V) { if (R.stop()) break; x->s = v; check(R, *t, jtext(n), t->name + std::to_string(f)); }
        });
    }
    define_c06i(R);
    define_c06w(R);
}
