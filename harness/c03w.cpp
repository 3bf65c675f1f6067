// C03, types that can only be written: raw pointers, string views, character arrays, literal dictionaries.
#include "core.hpp"
#include "types.hpp"
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/utility.hpp>

template<typename T> static void one(Run& R, const std::string& id, const T& v, Node expect) {
    R.at(id);
    std::string want = jtext(expect);
    R.count(Run::hash(id + want));
    std::string a, b, c;
    bool ra = persistence::write_to_string(v, a);
    b = persistence::write_to_string(v);
    rapidjson::Document d;
    bool rd = persistence::serialize_to_document(v, d);
    c = persistence::document_to_string(d);
    std::string e = persistence::document_to_string(persistence::serialize_to_document(v));
    if (!ra || !rd) { R.fail("representable object is not written"); return; }
    if (a != b || a != c || a != e) { R.fail("modes or overloads disagree: " + show(a) + " / " + show(b) + " / " + show(c) + " / " + show(e)); return; }
    Node g;
    if (!jparse(a, g)) { R.fail("invalid JSON: " + show(a)); return; }
    if (!node_equal(expect, g)) R.fail("wrong shape: " + show(a) + " expected " + show(want));
}
void define_writeonly(Run& R) {
    R.unit("write-only string_view", [&R] {
        for (int L = 0; L < 2; ++L) for (auto& s : string_list(L)) one(R, "string_view " + show(s), std::string_view(s), Node::str(s));
        for (std::size_t n : { 4095, 4096, 32767, 32768, 65535, 65536, 65537, 131073 }) { std::string s; for (std::size_t i = 0; i < n; ++i) s += char('a' + i * 7 % 26); one(R, "string_view of " + std::to_string(n), std::string_view(s), Node::str(s)); }
        for (auto& s : string_list(0)) { std::string longer = s + "TAIL"; one(R, "string_view prefix", std::string_view(longer).substr(0, s.size()), Node::str(s)); }
    });
    R.unit("write-only char array", [&R] {
        one(R, "char[1]", "", Node::str(""));
        one(R, "char[2]", "a", Node::str("a"));
        one(R, "char[6]", "hello", Node::str("hello"));
        one(R, "char[..]", "q\"\\\n\xc3\xa9", Node::str("q\"\\\n\xc3\xa9"));
        static const char* p = "pointer to text"; (void)p;
    });
    R.unit("write-only raw pointers", [&R] {
        for (int x : Spec<int>::list(0)) { int y = x; int* p = &y; one(R, "int*", p, Node::num(std::to_string(x))); std::vector<int*> v = { p, p }; Node n = Node::arr(); n.add(Node::num(std::to_string(x))); n.add(Node::num(std::to_string(x))); one(R, "vector<int*>", v, n); }
        for (auto& s : string_list(0)) { std::string y = s; std::string* p = &y; one(R, "string*", p, Node::str(s)); const std::string* cp = &y; (void)cp; }
        for (std::size_t i = 0; i < Spec<C3>::count(0); ++i) { C3 c = Spec<C3>::at(i, 0); EncCtx e; C3* p = &c; one(R, "C3*", p, Spec<C3>::enc(c, e)); EncCtx e2; C3** pp = &p; one(R, "C3**", pp, Spec<C3>::enc(c, e2)); }
    });
    R.unit("write-only dictionaries", [&R] {
        for (std::size_t n = 0; n <= 130; ++n) {
            persistence::literal_dict<int> ld; persistence::string_dict<int> sd; persistence::literal_map<int> lm; persistence::literal_unordered_map<int> lu;
            std::vector<std::string> keys;
            for (std::size_t i = 0; i < n; ++i) keys.push_back(nth_key((i * 7 + 3) % 131));
            Node e = Node::obj(), em = Node::obj(), eu = Node::obj();
            for (std::size_t i = 0; i < n; ++i) { ld.push_back({keys[i], int(i)}); sd.push_back({keys[i], int(i)}); lm[keys[i]] = int(i); lu[keys[i]] = int(i); e.add(keys[i], Node::num(std::to_string(i))); }
            for (auto& p : lm) em.add(std::string(p.first), Node::num(std::to_string(p.second)));
            for (auto& p : lu) eu.add(std::string(p.first), Node::num(std::to_string(p.second)));
            one(R, "literal_dict<int>", ld, e); one(R, "string_dict<int>", sd, e); one(R, "literal_map<int>", lm, em); one(R, "literal_unordered_map<int>", lu, eu);
        }
        for (std::size_t n : { 255, 256, 257, 4096, 65535, 65536, 65537, 131073 }) {
            persistence::literal_dict<int> ld; persistence::string_dict<int> sd; persistence::literal_map<int> lm; persistence::literal_unordered_map<int> lu;
            std::string k; for (std::size_t i = 0; i < n; ++i) k += char('a' + i * 7 % 26);
            ld.push_back({k, 1}); sd.push_back({k, 1}); lm[k] = 1; lu[k] = 1;
            Node e = Node::obj(); e.add(k, Node::num("1"));
            one(R, "literal_dict, long key", ld, e); one(R, "string_dict, long key", sd, e); one(R, "literal_map, long key", lm, e); one(R, "literal_unordered_map, long key", lu, e);
        }
        for (std::size_t n : { 1030, 66000 }) {
            persistence::literal_dict<int> ld; persistence::string_dict<int> sd;
            std::vector<std::string> keys; Node e = Node::obj();
            for (std::size_t i = 0; i < n; ++i) keys.push_back("k" + std::to_string(i));
            for (std::size_t i = 0; i < n; ++i) { ld.push_back({keys[i], int(i)}); sd.push_back({keys[i], int(i)}); e.add(keys[i], Node::num(std::to_string(i))); }
            one(R, "literal_dict of " + std::to_string(n), ld, e); one(R, "string_dict of " + std::to_string(n), sd, e);
        }
        persistence::string_dict<C2> sc; persistence::literal_dict<std::vector<std::string>> lv;
        Node e = Node::obj(), f = Node::obj();
        for (std::size_t i = 0; i < 5; ++i) { C2 c = Spec<C2>::at(i, 1); EncCtx x; e.add(nth_key(i), Spec<C2>::enc(c, x)); sc.push_back({nth_key(i), c}); auto v = Spec<std::vector<std::string>>::at(i, 1); EncCtx y; f.add(key_list()[i], Spec<std::vector<std::string>>::enc(v, y)); lv.push_back({key_list()[i], v}); }
        one(R, "string_dict<C2>", sc, e);
        one(R, "literal_dict<vector<string>>", lv, f);
    });
}
