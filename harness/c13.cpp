// C13: back-references that do not identify an already-read object of the same type are refused.
#include "core.hpp"
#include <persistence/exception.hpp>
#include "sharing.hpp"
#include "lib.hpp"
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>

static std::string ptr(const std::vector<std::string>& p) { DecCtx c; c.path = p; return p.empty() ? "" : c.pointer(); }
static void walk(Node& n, std::vector<std::string>& path, const std::function<void(Node&, const std::vector<std::string>&)>& fn) {
    fn(n, path);
    for (std::size_t i = 0; i < n.a.size(); ++i) { path.push_back(n.k == Node::Obj ? n.keys[i].s : std::to_string(i)); walk(n.a[i], path, fn); path.pop_back(); }
}
static Node ref(Node x) { Node n = Node::obj(); n.add("$ref", std::move(x)); return n; }
// a reference to a place that holds a reference itself: either treatment is sound
static bool chained(const Node& root, const Node& n) {
    if (n.k == Node::Obj) if (auto* r = n.find("$ref")) if (r->k == Node::Str) { auto* t = resolve_pointer(&root, r->s); if (t && t->k == Node::Obj && t->find("$ref")) return true; }
    for (auto& c : n.a) if (chained(root, c)) return true;
    return false;
}
template<typename T> static void doc(Run& R, const char* name, Node d) {
    std::string s = jtext(d);
    R.at(name, show(s));
    Node n;
    if (!jparse(s, n)) return;
    if (chained(n, n)) { T x{}; persistence::deserialize(s, x); R.extra(0, 1); return; }
    R.count(Run::hash(name + s));
    T want{}; DecCtx c; c.root = &n;
    bool ok = Spec<T>::dec(n, want, c);
    for (int mode = 0; mode < 4; ++mode) {
        T x{};
        bool r = false;
        std::string how = mode == 0 ? "deserialize(document, obj)" : mode == 1 ? "deserialize(text, obj)" : mode == 2 ? "deserialize<T>(document)" : "deserialize<T>(text)";
        try {
            rapidjson::Document dd;
            if (mode % 2 == 0) { dd = persistence::string_to_document(s); if (dd.HasParseError()) { R.fail("document not parsed"); return; } }
            if (mode == 0) r = persistence::deserialize(dd, x);
            else if (mode == 1) r = persistence::deserialize(s, x);
            else { if (mode == 2) x = persistence::deserialize<T>(dd); else x = persistence::deserialize<T>(s); r = true; }
        } catch (const persistence::JsonDeserializationError& e) { if (mode < 2) { R.fail(how + " throws"); return; } }
        catch (const std::exception& e) { R.fail(how + " throws an exception of another kind: " + e.what()); return; }
        if (r != ok) { R.fail(how + (r ? " accepts the document" : " refuses the document")); return; }
        EqCtx q; q.identity = true;
        if (r && !Spec<T>::eq(want, x, q)) { R.fail(how + ": an object or the sharing differs from what the document denotes"); return; }
    }
}
static const std::vector<std::string>& weird() {
    static const std::vector<std::string> L = [] {
        std::vector<std::string> r = { "", "/", "//", "///", "0", "a", "/-", "/00", "/01", "/+0", "/ 0", "/0 ", "/1e0", "/-1", "/0.0", "/4294967295", "/4294967296", "/4294967297", "/18446744073709551616", "/99999999999999999999999", "/0/", "/0/0", "/~", "/~2", "/0~", "~0", "/~0", "/~1", "/$ref", "/0/$ref", "$ref",
            "/nope", "/value", "/id", "../0", "./0", "/../0", "/%30", "http://x/0", " /0", "/0\n", std::string("/0\0", 3), std::string("/0\0x", 4), std::string("\0", 1), std::string("/\0", 2), "/\xc3\xa9", "/*", "/0,1" };
        for (int n : { 10, 100, 1000, 20000 }) { std::string s; for (int i = 0; i < n; ++i) s += "/0"; r.push_back(s); r.push_back(std::string(std::size_t(n), '/')); r.push_back("/" + std::string(std::size_t(n), '0')); r.push_back("/" + std::string(std::size_t(n), '1')); }
        return r;
    }();
    return L;
}
static std::vector<Node> nonstrings() {
    std::vector<Node> r = { Node::null(), Node::boolean(true), Node::boolean(false), Node::num("0"), Node::num("-1"), Node::num("1.5"), Node::num("18446744073709551615"), Node::arr(), Node::obj() };
    Node a = Node::arr(); a.add(Node::str("/0")); r.push_back(a);
    r.push_back(ref(Node::str("/0")));
    return r;
}
template<typename T> static void base(Run& R, const char* name, const std::string& text, bool pairs) {
    Node b;
    if (!jparse(text, b)) { R.unit(std::string("bad base ") + name, [&R, text] { R.fail_at(text, "bad base"); }); return; }
    auto slots = std::make_shared<std::vector<std::vector<std::size_t>>>();   // index paths of all nodes
    std::vector<std::string> ptrs;
    { std::vector<std::string> p; walk(b, p, [&](Node&, const std::vector<std::string>& q) { ptrs.push_back(ptr(q)); }); }
    auto nth = [](Node& n, std::size_t k) -> Node* {
        Node* res = nullptr; std::size_t i = 0; std::vector<std::string> p;
        walk(n, p, [&](Node& x, const std::vector<std::string>&) { if (i++ == k) res = &x; });
        return res;
    };
    std::size_t N = ptrs.size();
    for (std::size_t k = 0; k < N; ++k) R.unit(std::string(name) + " " + text.substr(0, 60) + " reference at node " + std::to_string(k), [&R, name, b, ptrs, k, nth] {
        R.sample(std::string(name) + ": reference at " + ptrs[k]);
        auto put = [&](Node x) { if (R.stop()) return; Node d = b; *nth(d, k) = ref(std::move(x)); doc<T>(R, name, d); };
        for (auto& p : ptrs) { put(Node::str(p)); put(Node::str(p + "/")); put(Node::str(p + "/0")); put(Node::str(p + "0")); if (p.size() > 1) { put(Node::str(p.substr(1))); put(Node::str(p.substr(0, p.size() - 1))); } put(Node::str("/" + p)); put(Node::str(p + std::string(1, '\0'))); }
        for (auto& w : weird()) put(Node::str(w));
        for (auto& x : nonstrings()) put(x);
        for (std::size_t i = 0; i < 3 && i < ptrs.size(); ++i) for (int c = 1; c < 128; ++c) { std::string s = ptrs[i]; if (s.empty()) continue; s.back() = char(c); if (s[0] != '#') put(Node::str(s)); }
        // a reference among the members of an object, before and after them; a reference with further members
        for (bool front : { true, false }) for (int kind = 0; kind < 2; ++kind) {
            auto among = [&](Node x) {
                if (R.stop()) return;
                Node d = b; Node& t = *nth(d, k);
                Node o = Node::obj();
                if (front) o.add("$ref", x);
                if (kind == 1) { o.add("a", Node::num("1")); o.add("note", Node::null()); }
                else if (t.k == Node::Obj) { for (std::size_t i = 0; i < t.a.size(); ++i) o.add(t.keys[i].s, t.a[i]); } else return;
                if (!front) o.add("$ref", x);
                if (o.has_dup_keys()) return;
                t = std::move(o);
                doc<T>(R, name, d);
            };
            for (auto& p : ptrs) among(Node::str(p));
            for (auto& x : nonstrings()) among(x);
            for (const char* w : { "/nope", "0", "/-1", "/~", "//" }) among(Node::str(w));
        }
        { Node d = b; *nth(d, k) = Node::obj(); doc<T>(R, name, d); }
        { Node d = b, o = Node::obj(); o.add("$Ref", Node::str("/0")); *nth(d, k) = o; doc<T>(R, name, d); }
        { Node d = b, o = Node::obj(); o.add("$re", Node::str("/0")); *nth(d, k) = o; doc<T>(R, name, d); }
        { Node d = b, o = Node::obj(); o.add("ref", Node::str("/0")); *nth(d, k) = o; doc<T>(R, name, d); }
    });
    if (pairs) for (std::size_t k = 0; k < N; ++k) R.unit(std::string(name) + " " + text.substr(0, 60) + " two references, first at node " + std::to_string(k), [&R, name, b, ptrs, k, nth, N] {
        for (std::size_t m = k + 1; m < N; ++m) for (auto& p : ptrs) for (auto& q : ptrs) {
            if (R.stop()) return;
            Node d = b;
            Node* y = nth(d, m); *y = ref(Node::str(q));       // later node first: indices of earlier nodes stay
            Node* x = nth(d, k); *x = ref(Node::str(p));
            doc<T>(R, name, d);
        }
    });
}
struct Hold { using HarnessClass = Hold; std::vector<SI> a; std::optional<SI> o; std::shared_ptr<std::vector<SI>> v; SI last;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(o) & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(last); }
    template<typename F> static void fields(F& f) { f.req("a", &Hold::a); f.opt("o", &Hold::o); f.req("v", &Hold::v); f.req("last", &Hold::last); } };
using VV = std::variant<std::vector<SI>, std::pair<SI, std::string>, std::shared_ptr<C2>, SI>;
void define(Run& R) {
    R.extra_names = { "chained_references_crash_checked" };
    bool th = R.thorough();
    base<std::vector<SI>>(R, "vector<shared int>", "[1,2,1,3]", true);
    base<std::vector<std::shared_ptr<std::string>>>(R, "vector<shared string>", "[\"/0\",\"\",\"/0\"]", true);
    base<std::map<std::string, SI>>(R, "map<shared int>", "{\"a\":1,\"\":2,\"a/b\":3,\"~1\":4,\"k\\u0000z\":5,\"k\":6}", true);
    base<STypes>(R, "several pointee types", "{\"i1\":1,\"s1\":\"x\",\"l1\":2,\"i2\":1,\"s2\":\"y\",\"l2\":1,\"i3\":5,\"l3\":7}", true);
    base<STypes>(R, "several pointee types, other key order", "{\"l3\":7,\"i3\":5,\"l2\":1,\"s2\":\"y\",\"i2\":1,\"l1\":2,\"s1\":\"x\",\"i1\":1}", true);
    base<std::vector<std::shared_ptr<C2>>>(R, "vector<shared class>", "[{\"a\":1,\"b\":\"x\"},{\"b\":\"/0\",\"a\":2},{\"a\":3,\"b\":\"\"}]", true);
    base<std::vector<std::shared_ptr<std::vector<SI>>>>(R, "vector<shared vector<shared>>", "[[1,2],[3],[4,5]]", true);
    base<std::tuple<SI, std::shared_ptr<long>, SI, std::string, std::unique_ptr<SI>>>(R, "tuple", "[1,2,3,\"s\",4]", true);
    base<std::pair<SI, int>>(R, "pair", "[1,1]", true);
    base<SI>(R, "top", "1", false);
    base<std::shared_ptr<C2>>(R, "top class", "{\"a\":1,\"b\":\"x\"}", true);
    base<Hold>(R, "class", "{\"a\":[1,2],\"o\":3,\"v\":[4,5],\"last\":6}", true);
    base<Hold>(R, "class, other key order", "{\"last\":6,\"v\":[4,5],\"o\":3,\"a\":[1,2]}", true);
    base<SNames>(R, "special names", "{\"\":1,\"a/b\":2,\"m~n\":3,\"0\":[4],\"q\\\"q\\\\\":5,\"\xc3\xa9\":6,\"~1\":{\"~0\":7}}", true);
    base<std::vector<VV>>(R, "variants", "[[1,2],[1,\"x\"],{\"a\":1,\"b\":\"x\"},5,[3]]", true);
    base<std::vector<VSI>>(R, "variants with strings", "[1,\"x\",2]", true);
    base<SVar>(R, "class with variants", "{\"v\":1,\"w\":\"x\",\"list\":[2,\"y\"],\"c\":{\"a\":3},\"tup\":[4,\"z\",5]}", th);
    base<std::shared_ptr<SG>>(R, "graph", "{\"id\":1,\"next\":[{\"id\":2,\"next\":[],\"named\":{}},{\"id\":3,\"next\":[{\"id\":4,\"next\":[],\"named\":{}}],\"named\":{\"x\":{\"id\":5,\"next\":[],\"named\":{}}}}],\"named\":{}}", th);
    base<std::vector<std::shared_ptr<SG>>>(R, "graphs", "[{\"id\":1,\"next\":[],\"left\":{\"id\":2,\"next\":[],\"named\":{}},\"named\":{}},{\"id\":3,\"next\":[],\"named\":{}}]", true);
    base<SAlias>(R, "related types", "{\"d\":[{\"b\":1,\"d\":2},{\"b\":1,\"d\":2}],\"b\":[{\"b\":3}],\"x\":[4,5]}", true);
    base<SSet>(R, "sets", "{\"v\":[1],\"s\":[2],\"m\":{},\"w\":[4]}", false);
    base<std::vector<std::unique_ptr<int>>>(R, "unique pointers", "[1,2]", true);
    base<std::vector<std::shared_ptr<std::map<std::string, std::shared_ptr<std::string>>>>>(R, "shared maps", "[{\"a\":\"/0/a\",\"b\":\"x\"},{\"c\":\"/0\"}]", true);
    base<std::vector<std::shared_ptr<EStr>>>(R, "shared enumerations", "[\"Unu\",\"Du\"]", true);
    base<std::array<std::shared_ptr<bool>, 3>>(R, "array of shared bool", "[true,false,true]", true);
}
