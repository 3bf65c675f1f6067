// C01: write -> parse round trip for every type of the universe and every value of its domain.
#include "large.hpp"
static void check(Run& R, const IType& t, const Val& v, const std::string& id) {
    R.at(t.name, id);
    bool rep;
    Node n = t.enc(v, rep);
    if (!rep) return;
    { Ref r = ref_read(t, n, false); if (!r.ok || !t.eq(v, *r.v)) return; }   // value not expressible in the format
    R.count(Run::hash(t.name + "|" + jtext(Node(n))), true);
    Out w = o_write(t, v);
    if (!w.ok()) { R.fail("writing fails: " + w.str()); return; }
    Out p = o_parse(t, w.text);
    if (!p.ok()) { R.fail("written text is not accepted by parse: " + p.str() + " text=" + show(w.text)); return; }
    if (!t.eq(v, *p.v)) { R.fail("parsed object differs from the original; text=" + show(w.text)); return; }
    Out q = o_parseT(t, w.text);
    if (!q.ok()) { R.fail("written text is not accepted by parse<T>: " + q.str() + " text=" + show(w.text)); return; }
    if (!t.eq(v, *q.v)) { R.fail("object returned by parse<T> differs from the original; text=" + show(w.text)); return; }
    Out w2 = o_write(t, *p.v);
    if (t.ordered && (!w2.ok() || w2.text != w.text)) { R.fail("writing the parsed object gives another text: " + show(w2.text) + " instead of " + show(w.text)); return; }
}
void deep_values(const IType& t, const std::function<void(ValP, const std::string&)>& fn);
void define_pairs(Run& R, bool dom);
void define(Run& R) {
    define_pairs(R, false);
    static const std::size_t chunk = 40;
    for (IType* t : registry()) {
        if (!t->parsable) continue;
        for (int level : { 0, 1 }) {
            std::size_t n = t->count(level);
            for (std::size_t b = 0; b < n; b += chunk)
                R.unit("roundtrip " + t->name + " L" + std::to_string(level) + " #" + std::to_string(b), [&R, t, level, b, n] {
                    for (std::size_t i = b; i < n && i < b + chunk && !R.stop(); ++i) {
                        ValP v = t->make(i, level);
                        check(R, *t, *v, "value " + std::to_string(i) + " level " + std::to_string(level));
                        if (i == b) { Out w = o_write(*t, *v); R.sample(t->name + " -> " + show(w.text, 200)); }
                    }
                });
        }
        R.unit("large " + t->name, [&R, t] { large_values(*t, false, R.thorough(), [&](ValP v, const std::string& id) { if (!R.stop()) check(R, *t, *v, id); }); });
        R.unit("deep " + t->name, [&R, t] { deep_values(*t, [&](ValP v, const std::string& id) { if (!R.stop()) check(R, *t, *v, id); }); });
    }
}
