// C03: both writing modes produce the same, valid, documented JSON.
#include "large.hpp"
void deep_values(const IType& t, const std::function<void(ValP, const std::string&)>& fn);
void define_writeonly(Run& R);
static void check(Run& R, const IType& t, const Val& v, const std::string& id) {
    R.at(t.name, id);
    bool rep;
    Node n = t.enc(v, rep);
    if (!rep) return;
    R.count(Run::hash(t.name + "|" + jtext(Node(n))), true);
    rapidjson::Document d, d2;
    Out w = o_write(t, v), wT = o_writeT(t, v), s = o_ser(t, v, d), sT = o_serT(t, v, d2);
    for (auto* o : { &w, &wT, &s, &sT }) if (!o->ok()) { R.fail("representable object is not written: " + o->str()); return; }
    if (w.text != wT.text || s.text != sT.text) { R.fail("overloads produce different texts: " + show(w.text) + " / " + show(wT.text) + " / " + show(s.text) + " / " + show(sT.text)); return; }
    if (w.text != s.text) { R.fail("modes produce different texts: direct " + show(w.text) + " / DOM " + show(s.text)); return; }
    Node g;
    if (!jparse(w.text, g)) { R.fail("text is not valid JSON: " + show(w.text)); return; }
    if (!node_equal(n, g, true)) { R.fail("JSON does not have the documented shape: got " + show(w.text) + " expected " + show(jtext(n))); return; }
}
void define(Run& R) {
    static const std::size_t chunk = 40;
    for (IType* t : registry()) {
        for (int level : { 0, 1 }) {
            std::size_t n = t->count(level);
            for (std::size_t b = 0; b < n; b += chunk)
                R.unit("shape " + t->name + " L" + std::to_string(level) + " #" + std::to_string(b), [&R, t, level, b, n] {
                    for (std::size_t i = b; i < n && i < b + chunk && !R.stop(); ++i) {
                        ValP v = t->make(i, level);
                        check(R, *t, *v, "value " + std::to_string(i) + " level " + std::to_string(level));
                        if (i == b) { Out w = o_write(*t, *v); R.sample(t->name + " -> " + show(w.text, 200)); }
                    }
                });
        }
        R.unit("large " + t->name, [&R, t] { large_values(*t, true, R.thorough(), [&](ValP v, const std::string& id) { if (!R.stop()) check(R, *t, *v, id); }); });
        R.unit("deep " + t->name, [&R, t] { deep_values(*t, [&](ValP v, const std::string& id) { if (!R.stop()) check(R, *t, *v, id); }); });
    }
    define_writeonly(R);
}
