// Large documents: conforming documents of the domain with one array, object, string or key blown up to a given size.
#include "lib.hpp"
#include "large.hpp"
namespace {
// the i-th variation of an element: the first leaf is altered so that all variations differ (where the kind of leaf allows it)
bool vary(Node& n, std::size_t i) {
    switch (n.k) {
    case Node::Num: if (is_int_literal(n.s)) { n.s = std::to_string(i); return true; } n.s = std::to_string(i) + ".5"; return true;
    case Node::Str: n.s += std::to_string(i); return true;
    case Node::Arr: case Node::Obj: for (auto& c : n.a) if (vary(c, i)) return true; return false;
    default: return false;
    }
}
void collect(Node& n, std::vector<Node*>& out, std::size_t cap) {
    if (out.size() >= cap) return;
    if (n.k >= Node::Str) out.push_back(&n);
    for (auto& c : n.a) collect(c, out, cap);
}
}
Node rich_base(const IType& t) {
    Node best; std::size_t bn = 0;
    for (int level : { 1, 2 }) {
        std::size_t n = t.count(level);
        for (std::size_t i = 0; i < n && i < 60; ++i) {
            bool rep;
            ValP v = t.make(i, level);
            Node d = t.enc(*v, rep);
            std::size_t c = node_count(d);
            if (rep && c > bn && c <= 150) { best = d; bn = c; }
        }
    }
    return best;
}
void large_docs(const IType& t, bool thorough, const LargeFn& fn) {
    Node base = rich_base(t);
    for (std::size_t q = 0;; ++q) {
        Node root = base;
        std::vector<Node*> at;
        collect(root, at, thorough ? 60 : 5);
        if (q >= at.size()) break;
        Node& n = *at[q];
        Node save = n;
        bool first = q == 0;
        std::string where = " at node " + std::to_string(q);
        auto done = [&](const std::string& id) { fn(root, n, id + where); n = save; };
        if (n.k == Node::Str) {
            for (std::size_t len : { 300, 1032, 4100, 66000, 132000 }) {
                if (len > 5000 && q > 1) break;
                n.s.assign(len, 'A'); done("string of " + std::to_string(len));
                n.s.clear();
                for (std::size_t i = 0; i < len; ++i) n.s += char('a' + i * 7 % 26);
                n.s[len / 2] = '"';
                done("mixed string of " + std::to_string(len));
            }
            continue;
        }
        if (save.a.empty()) continue;
        std::size_t unit = jtext(Node(save)).size() / save.a.size() + 1;
        std::vector<std::size_t> sizes = { 1030 };
        if (unit < 200) sizes.push_back(4100);
        if (unit < 60 && first) sizes.push_back(66000);
        if (q > 0 && unit > 200) sizes = { 300 };
        for (std::size_t size : sizes) {
            if (n.k == Node::Arr) {
                for (int distinct = 0; distinct < 2; ++distinct) {
                    n.a.clear();
                    for (std::size_t i = 0; i < size; ++i) { n.a.push_back(save.a[i % save.a.size()]); if (distinct) vary(n.a.back(), i); }
                    done(std::string(distinct ? "array of distinct " : "array of ") + std::to_string(size));
                }
            } else {
                for (std::size_t i = n.a.size(); i < size; ++i) n.add("key" + std::to_string(i), save.a[i % save.a.size()]);
                done("object of " + std::to_string(size));
            }
        }
        if (n.k == Node::Obj)
            for (std::size_t len : { 17, 24, 33, 65, 129, 300, 4100, 66000 }) {
                if (len > 5000 && !first) break;
                n.add(std::string(len, 'k'), save.a[0]); n.add(std::string(len, 'k') + "l", save.a[save.a.size() - 1]);
                done("key of " + std::to_string(len));
            }
    }
}
void large_values(const IType& t, bool dom, bool thorough, const std::function<void(ValP, const std::string&)>& fn) {
    large_docs(t, thorough, [&](Node& root, Node&, const std::string& id) {
        Ref r = ref_read(t, root, dom);
        if (r.ok) fn(std::move(r.v), id);
    });
}
