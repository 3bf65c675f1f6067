#include "lib.hpp"
#include <persistence/exception.hpp>
#include <algorithm>

std::string Out::str() const {
    static const char* N[] = { "success", "false", "parse error", "deserialization error", "serialization error", "other exception" };
    std::string s = N[k];
    if (k == ParseErr) s += " at offset " + std::to_string(offset);
    if (k == DeserErr) s += " at path '" + show(path) + "'";
    if (!what.empty()) s += " (" + show(what) + ")";
    return s;
}
Out call(const std::function<void(Out&)>& f) {
    Out o;
    try { f(o); }
    catch (const persistence::JsonParseError& e) { o.k = Out::ParseErr; o.offset = e.offset; o.what = e.what(); }
    catch (const persistence::JsonDeserializationError& e) { o.k = Out::DeserErr; o.path = e.path; o.what = e.what(); }
    catch (const persistence::JsonSerializationError& e) { o.k = Out::SerErr; o.what = e.what(); }
    catch (const std::exception& e) { o.k = Out::Other; o.what = e.what(); }
    catch (...) { o.k = Out::Other; o.what = "unknown"; }
    return o;
}
Out o_parse(const IType& t, const std::string& s) {
    return call([&](Out& o) { o.v = t.fresh(); o.k = t.parse(s, *o.v) ? Out::Ok : Out::False; });
}
Out o_parseT(const IType& t, const std::string& s) { return call([&](Out& o) { o.v = t.parseT(s); }); }
Out o_deser(const IType& t, const std::string& s, Src src) {
    return call([&](Out& o) {
        o.v = t.fresh();
        bool r;
        if (src == S_STR) r = t.deserS(s, *o.v);
        else if (src == S_RVAL) r = t.deserR(padded(s), *o.v);
        else { rapidjson::Document d; text_doc(s, d); r = t.deserD(d, *o.v); }
        o.k = r ? Out::Ok : Out::False;
    });
}
Out o_deserT(const IType& t, const std::string& s, Src src) {
    return call([&](Out& o) {
        if (src == S_STR) o.v = t.deserST(s);
        else if (src == S_RVAL) o.v = t.deserRT(padded(s));
        else { rapidjson::Document d; text_doc(s, d); o.v = t.deserDT(d); }
    });
}
Out o_write(const IType& t, const Val& v) {
    return call([&](Out& o) { o.text = "\x01untouched"; bool r = t.write(v, o.text); o.k = r ? Out::Ok : Out::False; });
}
Out o_writeT(const IType& t, const Val& v) { return call([&](Out& o) { o.text = t.writeT(v); }); }
Out o_ser(const IType& t, const Val& v, rapidjson::Document& d) {
    return call([&](Out& o) { bool r = t.ser(v, d); o.k = r ? Out::Ok : Out::False; if (r) o.text = doc_text(d); });
}
Out o_serT(const IType& t, const Val& v, rapidjson::Document& d) { return call([&](Out& o) { d = t.serT(v); o.text = doc_text(d); }); }

Ref ref_read(const IType& t, const Node& n, bool dom) {
    Ref r;
    DecCtx c;
    c.dom = dom;
    r.v = t.fresh();
    r.ok = t.dec(n, *r.v, c);
    r.offs = std::move(c.offs);
    return r;
}

static bool open_number(const std::string& s) {
    if (s == "-0") return true;
    double d = std::strtod(s.c_str(), nullptr), a = std::fabs(d);
    if (!std::isfinite(d)) return true;
    if (a == 16777216.0 || a == 9007199254740992.0) return true;          // limit of exact integers: either treatment is sound
    if (a > 3.4028234663852886e38 && a < 3.4028235677973366e38) return true;  // rounds to the largest float
    return false;
}
static bool open_base64(const std::string& s) { byte_vector b; return ref_b64_decode(s, b) == 2; }
bool left_open(const Node& n) {
    if (n.k == Node::Num && open_number(n.s)) return true;
    if (n.k == Node::Str && open_base64(n.s)) return true;
    for (auto& c : n.a) if (left_open(c)) return true;
    return false;
}
bool has_key(const Node& n, const std::string& k) {
    for (auto& x : n.keys) if (x.s == k) return true;
    for (auto& c : n.a) if (has_key(c, k)) return true;
    return false;
}
std::size_t node_count(const Node& n) { std::size_t k = 1; for (auto& c : n.a) k += node_count(c); return k; }

static Node A1(Node x) { Node n = Node::arr(); n.add(std::move(x)); return n; }
static Node A2(Node x, Node y) { Node n = A1(std::move(x)); n.add(std::move(y)); return n; }
static Node O1(std::string k, Node x) { Node n = Node::obj(); n.add(std::move(k), std::move(x)); return n; }

static const std::vector<Node>& scalars() {
    static const std::vector<Node> L = [] {
        std::vector<Node> r = { Node::null(), Node::boolean(true), Node::boolean(false) };
        for (auto s : { "0", "1", "-1", "2", "127", "128", "-128", "-129", "255", "256", "65535", "65536", "-40000", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                        "18446744073709551615", "18446744073709551616", "1.0", "1.5", "-0.0", "1e2", "0.1", "1e39", "-1e-3" }) r.push_back(Node::num(s));
        for (auto s : { "", "a", "Unu", "zero", "only", "Left", "1982-10-23", "1982-10-23T01:02:03Z", "AAAA", "A", "1", "null" }) r.push_back(Node::str(s));
        return r;
    }();
    return L;
}
const std::vector<Node>& alphabet() {
    static const std::vector<Node> L = [] {
        std::vector<Node> r;
        for (auto& s : scalars()) r.push_back(s);
        r.push_back(Node::arr());
        r.push_back(A1(Node::num("1")));
        r.push_back(A2(Node::num("1"), Node::num("2")));
        r.push_back(A1(Node::str("a")));
        r.push_back(A1(Node::null()));
        r.push_back(A1(Node::arr()));
        r.push_back(A1(A1(Node::num("1"))));
        r.push_back(A1(Node::obj()));
        r.push_back(Node::obj());
        r.push_back(O1("a", Node::num("1")));
        r.push_back(O1("only", Node::num("1")));
        r.push_back(O1("", Node::obj()));
        return r;
    }();
    return L;
}

static void edit_at(Node& root, Node& n, const DocFn& fn, std::size_t& budget) {
    if (!budget) return;
    --budget;
    {   // replacement
        Node save = n;
        for (auto& a : alphabet()) if (!node_equal(a, save)) { n = a; fn(root); }
        n = save;
        Node w = A1(save);
        n = w; fn(root);
        n = O1("a", save); fn(root);
        if (save.a.size() == 1) { n = Node(save.a[0]); fn(root); }
        n = save;
    }
    if (n.k == Node::Num) {
        std::string s = n.s;
        std::vector<std::string> v = { s + "0", s + "1", "-" + s, "1" + s };
        if (is_int_literal(s)) { v.push_back(s + ".0"); v.push_back(s + "e0"); v.push_back(s + ".5"); v.push_back(s + "E+1"); }
        else { v.push_back(std::to_string(static_cast<long long>(std::fmod(std::strtod(s.c_str(), nullptr), 1e6)))); }
        for (auto& x : v) {
            Node t;
            std::string txt = x;
            if (!jparse(txt, t) || t.k != Node::Num) continue;
            n.s = x; fn(root);
        }
        n.s = s;
    }
    if (n.k == Node::Str) {
        std::string s = n.s;
        std::vector<std::string> v = { s + "x", s + std::string(1, '\0'), std::string(1, '\0') + s, s + " ", " " + s, s + s };
        if (!s.empty()) {
            v.push_back(s.substr(0, s.size() - 1));
            v.push_back(s.substr(1));
            std::string u = s;
            for (char& c : u) c = char(std::isupper(static_cast<unsigned char>(c)) ? std::tolower(c) : std::toupper(static_cast<unsigned char>(c)));
            v.push_back(u);
        }
        for (auto& x : v) { n.s = x; fn(root); }
        n.s = s;
    }
    if (n.k == Node::Arr) {
        auto save = n.a;
        std::set<std::size_t> pos = { 0, save.size() / 2, save.size() };
        static const std::vector<Node> ins = { Node::null(), Node::num("1"), Node::str("a"), Node::arr(), Node::obj() };
        for (std::size_t p : pos) for (auto& x : ins) { n.a = save; n.a.insert(n.a.begin() + long(p), x); fn(root); }
        for (std::size_t p : pos) if (p < save.size()) {
            n.a = save; n.a.erase(n.a.begin() + long(p)); fn(root);
            n.a = save; n.a.insert(n.a.begin() + long(p), save[p]); fn(root);
        }
        if (save.size() > 1) { n.a = save; n.a.pop_back(); fn(root); n.a = save; std::reverse(n.a.begin(), n.a.end()); fn(root); }
        n.a = save;
    }
    if (n.k == Node::Obj) {
        auto sa = n.a; auto sk = n.keys;
        auto reset = [&] { n.a = sa; n.keys = sk; };
        for (std::size_t i = 0; i < sa.size(); ++i) {
            n.a.erase(n.a.begin() + long(i)); n.keys.erase(n.keys.begin() + long(i)); fn(root); reset();
        }
        static const std::vector<Node> ins = { Node::null(), Node::num("1"), Node::str("a"), A1(Node::num("1")), O1("zz", Node::num("1")) };
        for (auto& x : ins) {
            n.a.insert(n.a.begin(), x); n.keys.insert(n.keys.begin(), Key{"zz_unknown", 0, 0}); fn(root); reset();
            n.a.push_back(x); n.keys.push_back({"zz_unknown", 0, 0}); fn(root); reset();
        }
        for (std::size_t i = 0; i < sk.size(); ++i) {
            std::string k = sk[i].s;
            std::vector<std::string> v = { k + "x", k + std::string(1, '\0'), "" };
            if (!k.empty()) { v.push_back(k.substr(0, k.size() - 1)); std::string u = k; u[0] = char(std::isupper(static_cast<unsigned char>(u[0])) ? std::tolower(u[0]) : std::toupper(static_cast<unsigned char>(u[0]))); v.push_back(u); }
            for (auto& x : v) {
                bool dup = false;
                for (auto& q : sk) if (q.s == x) dup = true;
                if (dup) continue;
                n.keys[i].s = x; fn(root); reset();
            }
        }
        if (sa.size() > 1) {
            std::reverse(n.a.begin(), n.a.end()); std::reverse(n.keys.begin(), n.keys.end()); fn(root); reset();
            std::rotate(n.a.begin(), n.a.begin() + 1, n.a.end()); std::rotate(n.keys.begin(), n.keys.begin() + 1, n.keys.end()); fn(root); reset();
        }
    }
    for (std::size_t i = 0; i < n.a.size(); ++i) edit_at(root, n.a[i], fn, budget);
}
void single_edits(const Node& base, const DocFn& fn, std::size_t max_nodes) {
    Node root = base;
    std::size_t budget = max_nodes;
    edit_at(root, root, [&](Node& n) { if (!n.has_dup_keys()) fn(n); }, budget);
}
void generic_docs(const DocFn& fn, int size) {
    for (auto& a : alphabet()) { Node n = a; fn(n); }
    if (size < 2) return;
    static const char* K[] = { "a", "b", "only", "alpha", "", "first", "second", "x", "id" };
    for (auto& a : alphabet()) { Node n = A1(a); fn(n); for (auto k : K) { Node m = O1(k, a); fn(m); } }
    if (size < 3) return;
    std::vector<Node> small;
    for (auto s : { "0", "1", "-1", "300", "1.5" }) small.push_back(Node::num(s));
    small.push_back(Node::null()); small.push_back(Node::boolean(true)); small.push_back(Node::str("a")); small.push_back(Node::str("Unu"));
    small.push_back(Node::arr()); small.push_back(Node::obj()); small.push_back(A1(Node::num("1"))); small.push_back(O1("a", Node::num("1"))); small.push_back(A1(Node::str("a")));
    for (auto& a : small) for (auto& b : small) {
        Node n = A2(a, b); fn(n);
        n.add(Node::num("1")); fn(n);
        for (auto k : K) for (auto l : K) if (std::string(k) != l) { Node m = O1(k, a); m.add(l, b); fn(m); }
    }
}
void permute_keys(const Node& base, const DocFn& fn) {
    std::vector<std::size_t> p(base.a.size());
    for (std::size_t i = 0; i < p.size(); ++i) p[i] = i;
    do {
        Node n = Node::obj();
        for (auto i : p) { n.keys.push_back(base.keys[i]); n.a.push_back(base.a[i]); }
        fn(n);
    } while (std::next_permutation(p.begin(), p.end()));
}
