// C08: for each class, all assignments of {absent, conforming, another conforming, wrong kind, null} to members, in all key orders (bounded).
#include "lib.hpp"
struct Mem { std::string key; Node good, good2, bad; };
static void check(Run& R, const IType& t, Node& n, const char* what) {
    std::string text = jtext(n);
    R.at(t.name, text);
    R.count(Run::hash(t.name + "|" + text));
    Ref rp = ref_read(t, n, false), rd = ref_read(t, n, true);
    R.extra(rd.ok ? 0 : 1, 1);
    auto judge = [&](const char* f, const Out& o, const Ref& r) {
        if (o.k == Out::Other) { R.fail(std::string(f) + ": " + o.str() + " on " + show(text)); return false; }
        if (o.ok() != r.ok) { R.fail(std::string(f) + (o.ok() ? " accepts " : " rejects ") + show(text) + " (" + what + ")"); return false; }
        if (o.ok() && !t.eq(*o.v, *r.v)) { Out w = o_write(t, *o.v); R.fail(std::string(f) + " reads " + show(text) + " as " + show(w.text)); return false; }
        return true;
    };
    judge("parse", o_parse(t, text), rp) && judge("deserialize", o_deser(t, text), rd);
    if (rd.ok) judge("deserialize<T>", o_deserT(t, text), rd);
}
void define(Run& R) {
    R.extra_names = { "accepted_documents", "rejected_documents" };
    bool th = R.thorough();
    static const std::vector<std::string> classes = { "C1", "C1o", "C1d", "C1s", "C1so", "C1sd", "C1v", "C1c", "C1p", "C2s", "C2so", "C2c", "C3s", "CLong", "C2", "C2o", "C2oo", "C2d", "C3", "C4", "C5", "C6", "C8", "C8o", "CNames", "C10", "Base", "Der", "Der2", "D1", "D2", "Nest", "List", "Tree", "MTree", "C24", "C40" };
    for (auto& name : classes) {
        IType* t = find_type(name);
        if (!t) throw std::logic_error("the type " + name + " is not in the registry");
        // member table from an object with every member present
        auto members = [t] {
            std::vector<Mem> ms;
            Node best = Node::obj(), other = Node::obj();
            for (std::size_t i = 0; i < t->count(1); ++i) {
                bool rep; Node n = t->enc(*t->make(i, 1), rep);
                if (n.a.size() > best.a.size()) best = n;
            }
            for (std::size_t i = 0; i < best.a.size(); ++i) {
                Mem m; m.key = best.keys[i].s; m.good = best.a[i]; m.good2 = best.a[i];
                for (std::size_t j = 0; j < t->count(1); ++j) { bool rep; Node n = t->enc(*t->make(j, 1), rep); if (auto* v = n.find(m.key)) if (!node_equal(*v, m.good)) { m.good2 = *v; break; } }
                m.bad = m.good.k == Node::Obj ? Node::arr() : Node::obj();
                ms.push_back(m);
            }
            return ms;
        };
        std::vector<Mem> ms = members();
        std::size_t n = ms.size();
        // all presence/validity vectors
        int choices = n <= 4 ? 5 : n <= 6 ? 4 : n <= 8 ? 3 : 2;
        double total = 1;
        for (std::size_t i = 0; i < n; ++i) total *= choices;
        if (n <= (th ? 10u : 8u)) {
            std::size_t N = std::size_t(total), step = 2000;
            for (std::size_t b = 0; b < N; b += step) R.unit("assignments " + name + " #" + std::to_string(b), [&R, t, ms, n, N, b, step, choices, th] {
                for (std::size_t x = b; x < N && x < b + step && !R.stop(); ++x) {
                    Node d = Node::obj();
                    std::size_t y = x, used = 0;
                    for (std::size_t i = 0; i < n; ++i, y /= choices) {
                        std::size_t k = y % choices;
                        if (k == 0) continue;
                        ++used;
                        d.add(ms[i].key, k == 1 ? ms[i].good : k == 2 ? ms[i].bad : k == 3 ? Node::null() : ms[i].good2);
                    }
                    if (used <= (th ? 5u : 3u) || (used <= 4 && x % 5 == 0)) permute_keys(d, [&](Node& p) { check(R, *t, p, "assignment"); });
                    else {
                        check(R, *t, d, "declaration order");
                        Node r = Node::obj();
                        for (std::size_t i = d.a.size(); i-- > 0;) r.add(d.keys[i].s, d.a[i]);
                        check(R, *t, r, "reverse order");
                    }
                    if (x == b) R.sample(t->name + ": " + show(jtext(d), 200));
                }
            });
        }
        // large classes: every subset of up to two/three members absent, bad or null; every rotation
        R.unit("deviations " + name, [&R, t, ms, n, th] {
            auto full = [&] { Node d = Node::obj(); for (auto& m : ms) d.add(m.key, m.good); return d; };
            auto apply = [&](Node d, std::vector<std::pair<std::size_t, int>> ch) {
                Node o = Node::obj();
                for (std::size_t i = 0; i < d.a.size(); ++i) {
                    int k = 0;
                    for (auto& c : ch) if (c.first == i) k = c.second;
                    if (k == 1) continue;
                    o.add(d.keys[i].s, k == 2 ? ms[i].bad : k == 3 ? Node::null() : k == 4 ? ms[i].good2 : d.a[i]);
                }
                return o;
            };
            Node f = full();
            check(R, *t, f, "all members");
            for (std::size_t i = 0; i < n && !R.stop(); ++i) for (int a = 1; a <= 4; ++a) {
                Node d = apply(f, { {i, a} });
                check(R, *t, d, "one deviation");
                for (std::size_t rot = 0; rot < d.a.size(); rot += th ? 1 : 3) {
                    Node r = Node::obj();
                    for (std::size_t k = 0; k < d.a.size(); ++k) r.add(d.keys[(k + rot) % d.a.size()].s, d.a[(k + rot) % d.a.size()]);
                    check(R, *t, r, "one deviation, rotated");
                }
                for (std::size_t j = i + 1; j < n && !R.stop(); ++j) for (int b = 1; b <= (n > 12 ? 2 : 4); ++b) { Node e = apply(f, { {i, a}, {j, b} }); check(R, *t, e, "two deviations"); }
            }
            // only one or two members present
            for (std::size_t i = 0; i < n && !R.stop(); ++i) { Node d = Node::obj(); d.add(ms[i].key, ms[i].good); check(R, *t, d, "single member"); for (std::size_t j = 0; j < n; ++j) if (j != i) { Node e = d; e.add(ms[j].key, ms[j].good2); check(R, *t, e, "two members"); } }
        });
        // permutations of complete documents
        if (n <= (th ? 8u : 6u)) R.unit("orders " + name, [&R, t, ms] {
            Node d = Node::obj();
            for (auto& m : ms) d.add(m.key, m.good2);
            permute_keys(d, [&](Node& p) { if (!R.stop()) check(R, *t, p, "permutation"); });
        });
        // unknown keys: rejected by the direct parser, ignored by the DOM reader, at every position, with every kind of content
        R.unit("unknown " + name, [&R, t, ms, n] {
            static const std::vector<std::string> un = { "zz", "Zz", "\xc3\xa9x", "0x", std::string("\0", 1) };
            static const std::vector<std::string> val = { "null", "true", "1", "1.5", "\"s\"", "[]", "{}", "[1,[2,{\"a\":3}],\"x\"]", "{\"a\":{\"b\":[1,2]},\"c\":null}", "{\"$id\":1}" };
            for (std::size_t p = 0; p <= n && !R.stop(); ++p) for (auto& k : un) for (auto& v : val) {
                if (n > 10 && k != "zz") continue;
                Node x; jparse(v, x);
                Node d = Node::obj();
                for (std::size_t i = 0; i <= n; ++i) { if (i == p) d.add(k, x); if (i < n) d.add(ms[i].key, ms[i].good); }
                check(R, *t, d, "unknown member");
            }
        });
    }
    // nested and inherited: every presence/validity vector one level down
    for (auto& spec : { std::pair<const char*, const char*>{ "std::vector<C2>", "C2" }, { "std::map<std::string, C2>", "C2" }, { "std::unique_ptr<C2>", "C2" }, { "std::shared_ptr<C2>", "C2" }, { "std::array<C2, 2>", "C2" } }) {
        IType* t = find_type(spec.first);
        if (!t) continue;
        std::string outer = spec.first;
        R.unit("nested " + outer, [&R, t, outer] {
            std::vector<Node> inner;
            for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) for (int o = 0; o < 2; ++o) {
                Node d = Node::obj();
                auto A = [&] { if (x == 1) d.add("a", Node::num("5")); if (x == 2) d.add("a", Node::str("s")); if (x == 3) d.add("a", Node::null()); };
                auto B = [&] { if (y == 1) d.add("b", Node::str("s")); if (y == 2) d.add("b", Node::num("5")); if (y == 3) d.add("b", Node::null()); };
                if (o) { B(); A(); } else { A(); B(); }
                inner.push_back(d);
            }
            for (auto& i : inner) for (auto& j : inner) {
                if (R.stop()) return;
                Node n;
                if (outer.find("map") != std::string::npos) { n = Node::obj(); n.add("p", i); n.add("q", j); }
                else if (outer.find("ptr") != std::string::npos) n = i;
                else { n = Node::arr(); n.add(i); n.add(j); }
                check(R, *t, n, "nested");
            }
        });
    }
}
