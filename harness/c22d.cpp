#include "c22.hpp"
static Node arr(std::vector<Node> v) { Node n = Node::arr(); for (auto& x : v) n.add(std::move(x)); return n; }
static Node ref(const string& p) { Node n = Node::obj(); n.add("$ref", Node::str(p)); return n; }
static Node num(int i) { return Node::num(std::to_string(i)); }
// every assignment of {value, reference to every earlier place, string, null} to the slots of a document
template<typename T> static void refs(Run& R, const string& name, int slots, const std::function<Node(const std::vector<Node>&)>& mk, const std::vector<string>& targets) {
    std::vector<Node> al = { num(1), num(2), Node::str("s"), Node::null() };
    for (auto& t : targets) al.push_back(ref(t));
    for (std::size_t first = 0; first < al.size(); ++first) R.unit(name + " references " + std::to_string(first), [&R, name, slots, mk, al, first] {
        std::vector<std::size_t> ix(std::size_t(slots), 0);
        ix[0] = first;
        for (;;) {
            std::vector<Node> v;
            for (auto i : ix) v.push_back(al[i]);
            Node d = mk(v);
            R.states(1);
            one<T>(R, name, d, true);
            if (R.stop()) return;
            int p = slots - 1;
            while (p > 0 && ++ix[std::size_t(p)] == al.size()) ix[std::size_t(p--)] = 0;
            if (p <= 0) break;
        }
    });
}
void define_d(Run& R) {
    variant<VSh>(R, "variant<vector<shared>, map<shared>, string>");
    variant<CSh>(R, "class with shared pointers in variants");
    variant<CFail>(R, "class with failing alternative");
    variant<V<vector<shared_ptr<C2>>, vector<SI>>>(R, "variant<vector<shared C2>, vector<shared int>>");
    // a failed first alternative has registered objects that later references might hit
    refs<CFail>(R, "failing alternative", 3, [](const std::vector<Node>& v) { Node n = Node::obj(); n.add("v", arr({ v[0], v[1] })); n.add("q", v[2]); return n; }, { "/v/0", "/v/1", "/v", "/q", "" });
    refs<vector<VFail>>(R, "vector of failing alternatives", 4, [](const std::vector<Node>& v) { return arr({ arr({ v[0], v[1] }), arr({ v[2], v[3] }) }); }, { "/0/0", "/0/1", "/1/0", "/0" });
    refs<CSh>(R, "class with shared pointers in variants", 4, [](const std::vector<Node>& v) { Node n = Node::obj(), m = Node::obj(); n.add("p", v[0]); n.add("v", arr({ v[1] })); n.add("q", v[2]); m.add("k", v[3]); n.add("w", m); return n; }, { "/p", "/v/0", "/q", "/w/k" });
    refs<V<pair<vector<SI>, int>, pair<vector<SI>, string>, pair<vector<SI>, SI>>>(R, "alternatives with common prefix", 3, [](const std::vector<Node>& v) { return arr({ arr({ v[0], v[1] }), v[2] }); }, { "/0/0", "/0/1", "/0", "/1" });
    variant<CForget>(R, "class with alternative that does not share");
    refs<CForget>(R, "alternative that does not share, first", 3, [](const std::vector<Node>& v) { Node n = Node::obj(); n.add("v", arr({ v[0], v[1] })); n.add("q", v[2]); return n; }, { "/v/0", "/v/1", "/v" });
    refs<CForget>(R, "alternative that does not share, twice", 5, [](const std::vector<Node>& v) { Node n = Node::obj(); n.add("v", arr({ v[0], v[1] })); n.add("w", arr({ v[2], v[3] })); n.add("q", v[4]); return n; }, { "/v/0", "/w/0", "/w/1" });
    refs<CForget2>(R, "alternative that does not share, second", 4, [](const std::vector<Node>& v) { Node n = Node::obj(); n.add("p", v[0]); n.add("v", arr({ v[1], v[2] })); n.add("q", v[3]); return n; }, { "/p", "/v/0", "/v/1" });
    refs<pair<VForget, SI>>(R, "pair with alternative that does not share", 3, [](const std::vector<Node>& v) { return arr({ arr({ v[0], v[1] }), v[2] }); }, { "/0/0", "/0/1", "/0", "/1" });
}
