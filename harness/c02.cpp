// C02: serialize -> (text ->) deserialize round trip through every overload.
#include "large.hpp"
#include <malloc.h>
void deep_values(const IType& t, const std::function<void(ValP, const std::string&)>& fn);
// a value to be overwritten: the richest of the domain
static ValP used_target(const IType& t, std::size_t i) {
    static std::map<std::string, std::vector<std::size_t>> memo;
    auto& m = memo[t.name];
    if (m.empty()) {
        std::size_t best = 0;
        for (std::size_t k = 0; k < t.count(1) && k < 40; ++k) { bool rep; ValP v = t.make(k, 1); std::size_t c = node_count(t.enc(*v, rep)); if (c > best && c < 2000) { best = c; m.assign(1, k); } }
        for (std::size_t k = 0; k < t.count(1) && k < 40; k += 7) m.push_back(k);
    }
    return t.make(m[i % m.size()], 1);
}
static void check(Run& R, const IType& t, ValP original, const std::string& id, std::size_t number = 0) {
    const Val& v = *original;
    R.at(t.name, id);
    bool rep;
    Node n = t.enc(v, rep);
    if (!rep) return;
    Ref r = ref_read(t, n, true);
    if (!r.ok || !t.eq(v, *r.v, true)) return;
    R.count(Run::hash(t.name + "|" + jtext(Node(n))), true);
    rapidjson::Document d, d2;
    Out s = o_ser(t, v, d);
    if (!s.ok()) { R.fail("serializing fails: " + s.str()); return; }
    Out s2 = o_serT(t, v, d2);
    if (!s2.ok() || s2.text != s.text) { R.fail("overloads of serialize_to_document disagree: " + s2.str() + " " + show(s2.text) + " / " + show(s.text)); return; }
    // what the document held before does not matter
    for (int k = 0; k < 6; ++k) {
        rapidjson::Document u;
        if (k < 2) { ValP p = used_target(t, k ? number : 0); o_ser(t, *p, u); }
        else { static const char* const held[] = { "[1,{\"a\":[]},\"x\"]", "{\"a\":1,\"b\":[1],\"zzz\":null}", "\"a text that is too long for a short string\"", "3.5" }; u.Parse(held[k - 2]); }
        std::string before = k < 2 ? "an object of the type" : doc_text(u);
        Out o = call([&](Out& q) { q.k = t.ser(v, u) ? Out::Ok : Out::False; });
        if (!o.ok() || doc_text(u) != s.text) { R.fail("serialize_to_document(obj, document) into a document in use (" + before + ") gives " + o.str() + " " + show(doc_text(u)) + " instead of " + show(s.text)); return; }
    }
    original.reset();       // a document does not depend on the object from which it was made (freed memory is overwritten)
    auto verify = [&](Out o, const char* what) {
        if (!o.ok()) { R.fail(std::string(what) + " does not accept the serialized document: " + o.str() + " json=" + show(s.text)); return false; }
        if (!t.eq(*r.v, *o.v, true)) { R.fail(std::string(what) + " gives an object that differs from the original; json=" + show(s.text)); return false; }
        return true;
    };
    if (!verify(call([&](Out& o) { o.v = t.fresh(); o.k = t.deserD(d, *o.v) ? Out::Ok : Out::False; }), "deserialize(document, obj)")) return;
    if (!verify(call([&](Out& o) { o.v = t.deserDT(d); }), "deserialize<T>(document)")) return;
    // what the target held before does not matter
    for (std::size_t k : { std::size_t(0), number }) {
        if (!verify(call([&](Out& o) { o.v = used_target(t, k); o.k = t.deserD(d, *o.v) ? Out::Ok : Out::False; }), "deserialize(document, obj) into an object in use")) return;
        if (k == 0 && !verify(call([&](Out& o) { o.v = used_target(t, k); o.k = t.deserS(s.text, *o.v) ? Out::Ok : Out::False; }), "deserialize(string, obj) into an object in use")) return;
    }
    if (doc_text(d) != s.text) { R.fail("deserializing modifies the document"); return; }
    if (!verify(o_deser(t, s.text, S_STR), "deserialize(string, obj)")) return;
    if (!verify(o_deserT(t, s.text, S_STR), "deserialize<T>(string)")) return;
    if (!verify(o_deser(t, s.text, S_RVAL), "deserialize(temporary string, obj)")) return;
    if (!verify(o_deserT(t, s.text, S_RVAL), "deserialize<T>(temporary string)")) return;
    if (!verify(o_deser(t, s.text, S_DOC), "deserialize(string_to_document(string), obj)")) return;
    if (!verify(o_deserT(t, s.text, S_DOC), "deserialize<T>(string_to_document(string))")) return;
}
void define_pairs(Run& R, bool dom);
void define(Run& R) {
    mallopt(M_PERTURB, 0x5a);
    define_pairs(R, true);
    static const std::size_t chunk = 40;
    for (IType* t : registry()) {
        if (!t->readable) continue;
        for (int level : { 0, 1 }) {
            std::size_t n = t->count(level);
            for (std::size_t b = 0; b < n; b += chunk)
                R.unit("roundtrip " + t->name + " L" + std::to_string(level) + " #" + std::to_string(b), [&R, t, level, b, n] {
                    for (std::size_t i = b; i < n && i < b + chunk && !R.stop(); ++i) {
                        ValP v = t->make(i, level);
                        if (i == b) { rapidjson::Document d; Out w = o_ser(*t, *v, d); R.sample(t->name + " -> " + show(w.text, 200)); }
                        check(R, *t, std::move(v), "value " + std::to_string(i) + " level " + std::to_string(level), i);
                    }
                });
        }
        R.unit("large " + t->name, [&R, t] { large_values(*t, true, R.thorough(), [&](ValP v, const std::string& id) { if (!R.stop()) check(R, *t, std::move(v), id); }); });
        R.unit("deep " + t->name, [&R, t] { deep_values(*t, [&](ValP v, const std::string& id) { if (!R.stop()) check(R, *t, std::move(v), id); }); });
    }
}
