// C04: both readers accept exactly the conforming documents and agree with the reference value.
// C09: failures use the right channel and name the right place (same document universe).
#include "large.hpp"
#ifdef CHECK_C09
static const bool C09 = true;
void define_malformed(Run& R);
#else
static const bool C09 = false;
#endif

static bool in_offs(const std::vector<Off>& offs, const std::string& p) { for (auto& o : offs) if (o.path == p) return true; return false; }
static std::string list_offs(const std::vector<Off>& offs) { std::string s; int k = 0; for (auto& o : offs) { if (k++ > 6) break; s += " '" + show(o.path) + "'[" + std::to_string(o.beg) + "," + std::to_string(o.end) + "]"; } return s; }

static void check(Run& R, const IType& t, Node& n, bool sharing) {
    if (left_open(n) || (sharing && has_key(n, "$ref"))) return;
    std::string text = jtext(n);
    R.at(t.name, text);
    Ref rd = ref_read(t, n, true);
    Ref rp;
    if (t.parsable) rp = ref_read(t, n, false);
    if (!C09) {
        R.count(Run::hash(t.name + "|" + text), true);
        R.extra(rd.ok ? 0 : 1, 1);
        if (t.parsable) {
            Out p = o_parse(t, text);
            if (p.k == Out::Other) { R.fail("parse: " + p.str()); return; }
            if (p.ok() != rp.ok) { R.fail(std::string("parse ") + (p.ok() ? "accepts a non-conforming" : "rejects a conforming") + " document: " + show(text) + "; offending:" + list_offs(rp.offs)); return; }
            if (p.ok() && !t.eq(*p.v, *rp.v)) { R.fail("parse yields another value than the document denotes: " + show(text)); return; }
        }
        Out d = o_deser(t, text, S_STR);
        if (d.k == Out::Other) { R.fail("deserialize: " + d.str()); return; }
        if (d.ok() != rd.ok) { R.fail(std::string("deserialize ") + (d.ok() ? "accepts a non-conforming" : "rejects a conforming") + " document: " + show(text) + "; offending:" + list_offs(rd.offs)); return; }
        if (d.ok() && !t.eq(*d.v, *rd.v)) { R.fail("deserialize yields another value than the document denotes: " + show(text)); return; }
        return;
    }
    // C09
    if (t.parsable) {
        Out p = o_parse(t, text), q = o_parseT(t, text);
        R.count(Run::hash(t.name + "|P|" + text), !q.ok());
        if (p.k != Out::Ok && p.k != Out::False) { R.fail("parse(str, obj) throws: " + p.str() + " on " + show(text)); return; }
        if (q.k != Out::Ok && q.k != Out::ParseErr) { R.fail("parse<T> fails through the wrong channel: " + q.str() + " on " + show(text)); return; }
        if (p.ok() != q.ok()) { R.fail("parse(str, obj) and parse<T>(str) disagree on success: " + p.str() + " / " + q.str() + " on " + show(text)); return; }
        if (!message_fits(q, text)) { R.fail("the message of the parse error does not name the place: " + q.str() + " on " + show(text)); return; }
        if (!q.ok() && !rp.ok) {
            if (q.offset > text.size()) { R.fail("parse error offset beyond the text: " + q.str() + " on " + show(text)); return; }
            const Off* first = &rp.offs[0];
            for (auto& o : rp.offs) if (o.beg < first->beg) first = &o;
            if (q.offset < first->beg || q.offset > first->end) { R.fail("parse error offset " + std::to_string(q.offset) + " is not at the offending token [" + std::to_string(first->beg) + "," + std::to_string(first->end) + "] of " + show(text)); return; }
        }
    }
    Src srcs[] = { S_STR, S_RVAL, S_DOC };
    std::uint64_t turn = Run::hash(text);       // quick: text, and one of the other two sources in turn
    for (Src s : srcs) {
        if (!R.thorough() && s != S_STR && (turn & 1) == (s == S_DOC)) continue;
        Out p = o_deser(t, text, s), q = o_deserT(t, text, s);
        if (s == S_STR) R.count(Run::hash(t.name + "|D|" + text), !q.ok());
        if (p.k != Out::Ok && p.k != Out::False) { R.fail("deserialize(src, obj) throws: " + p.str() + " on " + show(text)); return; }
        if (q.k != Out::Ok && q.k != Out::DeserErr) { R.fail("deserialize<T> fails through the wrong channel: " + q.str() + " on " + show(text)); return; }
        if (p.ok() != q.ok()) { R.fail("deserialize(src, obj) and deserialize<T>(src) disagree on success: " + p.str() + " / " + q.str() + " on " + show(text)); return; }
        if (!message_fits(q, text)) { R.fail("the message of the deserialization error does not name the place: " + q.str() + " on " + show(text)); return; }
        if (q.k == Out::DeserErr && !rd.ok && !in_offs(rd.offs, q.path)) { R.fail("deserialization error path '" + show(q.path) + "' is not an offending place (" + list_offs(rd.offs) + ") of " + show(text)); return; }
    }
}

void define(Run& R) {
    if (C09) R.extra_names = {}; else R.extra_names = { "conforming_documents", "non_conforming_documents" };
    bool th = R.thorough();
    for (IType* t : registry()) {
        if (!t->readable) continue;
        bool sharing = true;
        if (!C09 || th || t->name.size() < 24) R.unit("generic " + t->name, [&R, t, sharing, th] {
            generic_docs([&](Node& n) { if (!R.stop()) check(R, *t, n, sharing); }, th ? 3 : 2);
        });
        // conforming documents of the domain and all their single-point edits
        for (int level : { 1, 2, 0 }) {
            std::size_t n = t->count(level);
            std::size_t lim = level == 0 ? (th ? 60 : 12) : level == 1 ? (th ? 40 : 8) : (th ? 12 : 3);
            for (std::size_t i = 0; i < n && i < lim; ++i)
                R.unit("edits " + t->name + " L" + std::to_string(level) + " #" + std::to_string(i), [&R, t, level, i, n, lim, sharing, th] {
                    std::size_t j = n <= lim ? i : i * n / lim;
                    ValP v = t->make(j, level);
                    bool rep;
                    Node base = t->enc(*v, rep);
                    if (!rep) return;
                    Node b0 = base;
                    check(R, *t, b0, sharing);
                    std::size_t nc = node_count(base);
                    if (i == 0) R.sample(t->name + ": edits of " + show(jtext(Node(base)), 200));
                    std::size_t len = jtext(Node(base)).size();
                    std::size_t cap = th ? (len <= 4000 ? 400 : 120) : len <= 400 ? (C09 ? 40 : 60) : len <= 2000 ? 14 : 5;
                    single_edits(base, [&](Node& e) { if (!R.stop()) check(R, *t, e, sharing); }, cap);
                    if (th && nc <= 6 && level > 0)   // all pairs of edits of small documents
                        single_edits(base, [&](Node& e) { Node e2 = e; single_edits(e2, [&](Node& f) { if (!R.stop()) check(R, *t, f, sharing); }, 20); }, 20);
                });
        }
        // large documents, sound and with a wrong element at the end or at the middle of the enlarged place
        R.unit("large " + t->name, [&R, t, sharing, th] {
            large_docs(*t, th, [&](Node& root, Node& n, const std::string&) {
                if (R.stop()) return;
                check(R, *t, root, sharing);
                if (n.a.size() < 200 && !(n.k == Node::Obj && !n.a.empty() && n.keys.back().s.size() > 16)) return;
                for (std::size_t p : { n.a.size() - 1, n.a.size() / 2 }) for (int w = 0; w < 2; ++w) {
                    Node save = n.a[p];
                    n.a[p] = w ? Node::null() : Node::str("~bad~");
                    check(R, *t, root, sharing);
                    n.a[p] = save;
                }
            });
        });
        // deeply nested documents, sound and with a wrong value at every depth
        R.unit("deep " + t->name, [&R, t, sharing] {
            deep_docs(*t, [&](Node& root, const std::string&) {
                if (R.stop()) return;
                check(R, *t, root, sharing);
                std::vector<Node*> chain;     // the deepest path
                for (Node* n = &root; n;) {
                    chain.push_back(n);
                    Node* next = nullptr;
                    for (auto& c : n->a) if (!c.a.empty() || !next) next = &c;
                    n = next;
                }
                for (auto it = chain.rbegin(); it != chain.rend(); ++it) {
                    Node* n = *it;
                    Node save = *n;
                    *n = Node::str("~bad~"); if (save.k == Node::Str) *n = Node::num("7");
                    check(R, *t, root, sharing);
                    *n = std::move(save);
                }
            });
        });
        // every element position of long sequences
        R.unit("positions " + t->name, [&R, t, sharing, th] {
            std::size_t n = t->count(0);
            for (std::size_t i = 0; i < n && i < 40; ++i) {
                ValP v = t->make(i, 0);
                bool rep;
                Node base = t->enc(*v, rep);
                if (!rep || (base.k != Node::Arr && base.k != Node::Obj) || base.a.size() < 9 || base.a.size() > (th ? 300u : 129u)) continue;
                bool big = node_count(base) > 260;
                if (!th && node_count(base) > 1500) continue;
                for (std::size_t p = 0; p < base.a.size() && !R.stop(); ++p) for (int w = 0; w < (th ? 3 : big ? 1 : 2); ++w) {
                    Node e = base;
                    e.a[p] = w == 1 ? Node::null() : w == 0 ? Node::str("~bad~") : Node::num("1e30");
                    check(R, *t, e, sharing);
                }
            }
        });
    }
#ifdef CHECK_C09
    define_malformed(R);
#endif
}
