// C09, malformed text: every reader reports a parse error, at the place where the text stops being JSON.
#include "large.hpp"
namespace {
struct Span { std::size_t beg, end; };
bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
bool structural(char c) { return c && std::strchr("{}[]:,", c); }
std::vector<Span> lex(const std::string& s) {
    std::vector<Span> r;
    for (std::size_t p = 0; p < s.size();) {
        std::size_t b = p;
        if (space(s[p])) { ++p; continue; }
        if (structural(s[p])) ++p;
        else if (s[p] == '"') { ++p; while (p < s.size() && s[p] != '"') p += s[p] == '\\' ? 2 : 1; p = std::min(p + 1, s.size()); }
        else while (p < s.size() && !space(s[p]) && !structural(s[p]) && s[p] != '"') ++p;
        r.push_back({ b, p });
    }
    return r;
}
// the token that the byte at p belongs to, together with a word that ends right before it
Span around(const std::string& s, const std::vector<Span>& toks, std::size_t p) {
    Span r{ p, std::min(p + 1, s.size()) };
    for (auto& t : toks) {
        if (t.beg <= p && p < t.end) { r.beg = std::min(r.beg, t.beg); r.end = std::max(r.end, t.end); }
        if (t.end == p && !structural(s[t.beg])) r.beg = std::min(r.beg, t.beg);
    }
    return r;
}
}
static void malformed(Run& R, const IType& t, const std::string& text, std::size_t same, bool all) {
    Node n;
    JParser jp(text);
    bool wf = jp.document(n);
    if (wf || jp.unspecified || jp.overflow) return;
    R.at(t.name, text);
    R.count(Run::hash(t.name + "|M|" + text), true);
    auto toks = lex(text);
    Span bad = around(text, toks, std::min(jp.p, text.size()));
    std::size_t low = std::min(bad.beg, around(text, toks, same).beg);
    auto judge = [&](const char* f, const Out& p, const Out& q, std::size_t lo) {
        if (p.k != Out::False) { R.fail(std::string(f) + " into a target does not just return false: " + p.str() + " on malformed text " + show(text)); return false; }
        if (q.k != Out::ParseErr) { R.fail(std::string(f) + " returning a value does not raise a parse error: " + q.str() + " on malformed text " + show(text)); return false; }
        if (q.offset < lo || q.offset > bad.end) { R.fail(std::string(f) + " reports the offset " + std::to_string(q.offset) + " instead of one in [" + std::to_string(lo) + "," + std::to_string(bad.end) + "] for malformed text " + show(text)); return false; }
        if (!message_fits(q, text)) { R.fail(std::string(f) + ": the message of the parse error does not name the place: " + q.str() + " on malformed text " + show(text)); return false; }
        return true;
    };
    if (t.parsable && !judge("parse", o_parse(t, text), o_parseT(t, text), low)) return;
    if (!judge("deserialize", o_deser(t, text, S_STR), o_deserT(t, text, S_STR), bad.beg)) return;
    if (all && !judge("deserialize (temporary string)", o_deser(t, text, S_RVAL), o_deserT(t, text, S_RVAL), bad.beg)) return;
    // a document that carries a parse error of its own
    if (!all || text.find('\0') != std::string::npos) return;
    rapidjson::Document d;
    d.Parse(text.c_str());
    if (!d.HasParseError()) return;
    Out p = call([&](Out& o) { o.v = t.fresh(); o.k = t.deserD(d, *o.v) ? Out::Ok : Out::False; });
    Out q = call([&](Out& o) { o.v = t.deserDT(d); });
    judge("deserialize (document with a parse error)", p, q, bad.beg);
}
void define_malformed(Run& R) {
    bool th = R.thorough();
    for (IType* t : registry()) {
        if (!t->readable) continue;
        R.unit("malformed " + t->name, [&R, t, th] {
            std::size_t docs = 0;
            for (int level : { 2, 1, 3 }) for (std::size_t i = 0; i < t->count(level) && docs < (th ? 12u : 2u); ++i) {
                bool rep;
                Node n = t->enc(*t->make(i, level), rep);
                if (!rep || !ref_read(*t, n, !t->parsable).ok) continue;
                std::string s = jtext(n);
                if (s.size() > (th ? 600u : 160u)) continue;
                if (!docs++) R.sample(t->name + ": malformed variants of " + show(s, 120));
                for (std::size_t p = 0; p <= s.size() && !R.stop(); ++p) {
                    malformed(R, *t, s.substr(0, p), p, true);
                    if (p < s.size()) malformed(R, *t, s.substr(0, p) + s.substr(p + 1), p, th);
                    for (const char* c : { "x", ",", "]", "}", "\"", "\\", "1", "\x01" }) {
                        malformed(R, *t, s.substr(0, p) + c + s.substr(p), p, p % 3 == 0 || th);
                        if (th && p < s.size()) malformed(R, *t, s.substr(0, p) + c + s.substr(p + 1), p, true);
                    }
                    malformed(R, *t, s.substr(0, p) + std::string(1, '\0') + s.substr(p), p, th);
                }
                for (const char* e : { " x", "\n1", " \t,", "  ]", "null" }) malformed(R, *t, s + e, s.size(), true);
            }
            // large documents that go wrong near their end or at their middle
            large_docs(*t, false, [&](Node& root, Node&, const std::string&) {
                if (R.stop()) return;
                std::string s = jtext(root);
                if (s.size() < 4000 || !ref_read(*t, root, !t->parsable).ok) return;
                malformed(R, *t, s.substr(0, s.size() - 1), s.size() - 1, true);
                malformed(R, *t, s + "x", s.size(), true);
                std::size_t m = s.size() / 2;
                malformed(R, *t, s.substr(0, m) + "\x02" + s.substr(m), m, false);
            });
            deep_docs(*t, [&](Node& root, const std::string&) {
                if (R.stop() || !ref_read(*t, root, !t->parsable).ok) return;
                std::string s = jtext(root);
                for (std::size_t cut : { std::size_t(1), s.size() / 3, s.size() / 2 }) malformed(R, *t, s.substr(0, s.size() - cut), s.size() - cut, true);
                malformed(R, *t, s + "]", s.size(), true);
            });
        });
    }
}
