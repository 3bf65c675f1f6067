// Deeply nested values, built through the reference decoder.
#include "lib.hpp"
#include "large.hpp"
static Node tree(int d, int w) { Node n = Node::obj(); n.add("value", Node::num(std::to_string(d))); Node c = Node::arr(); if (d > 0) for (int i = 0; i < w; ++i) c.add(i + 1 == w ? tree(d - 1, w) : tree(0, 1)); n.add("children", c); return n; }
static Node list(int d) { Node n = Node::obj(); n.add("v", Node::num(std::to_string(d))); if (d > 0) n.add("next", list(d - 1)); return n; }
static Node mtree(int d, int which) {
    Node n = Node::obj(); n.add("name", Node::str("n" + std::to_string(d)));
    Node k = Node::obj(); if (d > 0 && which == 0) k.add("k", mtree(d - 1, which)); n.add("kids", k);
    if (d > 0 && which == 1) { Node m = Node::arr(); m.add(mtree(d - 1, which)); n.add("more", m); }
    return n;
}
void deep_docs(const IType& t, const std::function<void(Node&, const std::string&)>& fn) {
    std::vector<int> depths;
    for (int d = 1; d <= 34; ++d) depths.push_back(d);
    for (int d : { 40, 55 }) depths.push_back(d);
    for (int d : depths) {
        std::string s = " depth " + std::to_string(d);
        auto doc = [&](Node n, const std::string& id) { fn(n, id + s); };
        if (t.name == "Tree") { doc(tree(d, 1), "chain"); doc(tree(d, 3), "comb"); }
        if (t.name == "List") doc(list(d), "list");
        if (t.name == "MTree") { doc(mtree(d, 0), "maps"); if (d <= 34) doc(mtree(d, 1), "pointers"); }
    }
}
void deep_values(const IType& t, const std::function<void(ValP, const std::string&)>& fn) {
    deep_docs(t, [&](Node& d, const std::string& id) { Ref r = ref_read(t, d, true); if (r.ok) fn(std::move(r.v), id); });
}
