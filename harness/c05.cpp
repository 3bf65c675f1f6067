// C05: malformed text is rejected by every reader. Model: the JSON token automaton (explored exhaustively); plus all byte- and
// token-level edits, prefixes and whitespace placements of conforming documents of each type.
#include "large.hpp"

static void verdict(Run& R, const IType& t, const std::string& text, bool count_dead = true) {
    R.at(t.name, text);
    Node n;
    JParser jp(text);
    bool wf = jp.document(n);
    if (jp.unspecified || jp.overflow) { if (wf) return; }
    if (wf && (n.has_dup_keys() || left_open(n) || has_key(n, "$ref"))) return;
    if (!wf) { R.count(Run::hash(t.name + "|" + text), true); R.traces(1); }
    else R.eval();
    Ref rp, rd;
    if (wf) { if (t.parsable) rp = ref_read(t, n, false); rd = ref_read(t, n, true); }
    bool wantp = wf && rp.ok, wantd = wf && rd.ok;
    auto judge = [&](const char* f, const Out& o, bool want, const Ref& r) {
        if (o.k == Out::Other || o.k == Out::SerErr) { R.fail(std::string(f) + " fails through a foreign exception: " + o.str() + " on " + show(text)); return false; }
        if (o.ok() && !wf) { R.fail(std::string(f) + " accepts malformed text " + show(text)); return false; }
        if (o.ok() != want) { R.fail(std::string(f) + (o.ok() ? " accepts a non-conforming text " : " rejects a conforming text ") + show(text)); return false; }
        if (o.ok() && !t.eq(*o.v, *r.v)) { R.fail(std::string(f) + " yields another value than the text denotes: " + show(text)); return false; }
        return true;
    };
    if (t.parsable) {
        if (!judge("parse(str, obj)", o_parse(t, text), wantp, rp)) return;
        if (!wf && !judge("parse<T>(str)", o_parseT(t, text), wantp, rp)) return;
    }
    if (!judge("deserialize(str, obj)", o_deser(t, text, S_STR), wantd, rd)) return;
    if (!wf) {
        if (!judge("deserialize<T>(str)", o_deserT(t, text, S_STR), wantd, rd)) return;
        if (!judge("deserialize(string&&, obj)", o_deser(t, text, S_RVAL), wantd, rd)) return;
        if (!judge("deserialize<T>(string&&)", o_deserT(t, text, S_RVAL), wantd, rd)) return;
        rapidjson::Document d;
        if (text_doc(text, d)) { R.fail("string_to_document accepts malformed text " + show(text)); return; }
        if (text.size() > 200 || text.find('\0') != std::string::npos) return;
        rapidjson::Document e;        // a document that carries a parse error of its own
        e.Parse(text.c_str());
        if (!e.HasParseError()) return;
        if (!judge("deserialize(document with a parse error, obj)", call([&](Out& o) { o.v = t.fresh(); o.k = t.deserD(e, *o.v) ? Out::Ok : Out::False; }), false, rd)) return;
        if (!judge("deserialize<T>(document with a parse error)", call([&](Out& o) { o.v = t.deserDT(e); }), false, rd)) return;
    }
}

// ---- token automaton
namespace {
struct Pda {                     // configuration: stack of open brackets and what is expected next
    std::string st; enum Ex { Val, ValOrClose, KeyOrClose, Key, Colon, CommaOrClose, End } ex = Val;
    bool step(const std::string& tok) {
        char c = tok[0];
        bool str = c == '"', open = c == '[' || c == '{', close = c == ']' || c == '}', sep = c == ':' || c == ',';
        bool scalar = !open && !close && !sep;
        auto after = [&] { ex = st.empty() ? End : CommaOrClose; };
        if (ex == Val || ex == ValOrClose) {
            if (scalar) { after(); return true; }
            if (open) { st += c; ex = c == '[' ? ValOrClose : KeyOrClose; return true; }
            if (ex == ValOrClose && c == ']') { st.pop_back(); after(); return true; }
            return false;
        }
        if (ex == KeyOrClose || ex == Key) {
            if (str) { ex = Colon; return true; }
            if (ex == KeyOrClose && c == '}') { st.pop_back(); after(); return true; }
            return false;
        }
        if (ex == Colon) { if (c == ':') { ex = Val; return true; } return false; }
        if (ex == CommaOrClose) {
            if (c == ',') { ex = st.back() == '[' ? Val : Key; return true; }
            if (c == (st.back() == '[' ? ']' : '}')) { st.pop_back(); after(); return true; }
            return false;
        }
        return false;
    }
};
}
struct Tok { Run& R; const IType& t; std::vector<std::string> toks; int depth; std::set<std::string> states; std::uint64_t trans = 0;
    void explore(const std::string& text, Pda p, int d) {
        if (R.stop()) return;
        states.insert(p.st + char('0' + p.ex));
        for (auto& k : toks) {
            Pda q = p;
            bool live = q.step(k);
            ++trans;
            std::string s = text.empty() ? k : text + " " + k;
            if (live) { verdict(R, t, s); if (d > 1) explore(s, q, d - 1); }
            else { verdict(R, t, s); if (d > 2) for (auto& m : toks) verdict(R, t, s + m); }
        }
    }
};

void define(Run& R) {
    R.extra_names = {};
    bool th = R.thorough();
    // 1. all token sequences
    struct Alpha { const char* type; std::vector<std::string> toks; int q, t; };
    static const std::vector<Alpha> alphas = {
        { "int", { "[", "]", "{", "}", ":", ",", "1", "-2", "\"a\"", "null" }, 5, 6 },
        { "bool", { "[", "]", "{", "}", ":", ",", "true", "false", "1", "\"a\"" }, 5, 6 },
        { "std::string", { "[", "]", "{", "}", ":", ",", "\"a\"", "\"\"", "1", "null" }, 5, 6 },
        { "double", { "[", "]", "{", "}", ":", ",", "1", "1.5", "\"a\"" }, 5, 6 },
        { "std::nullptr_t", { "[", "]", "{", "}", ":", ",", "null", "1", "\"a\"" }, 5, 6 },
        { "std::vector<int>", { "[", "]", "{", "}", ":", ",", "1", "\"a\"" }, 7, 8 },
        { "std::vector<std::vector<std::vector<int>>>", { "[", "]", "}", ",", "1" }, 9, 11 },
        { "std::map<std::string, int>", { "{", "}", "[", "]", ":", ",", "1", "\"a\"", "\"b\"" }, 7, 9 },
        { "std::map<std::string, std::map<std::string, std::vector<int>>>", { "{", "}", "[", "]", ":", ",", "1", "\"a\"" }, 8, 9 },
        { "std::array<int, 3>", { "[", "]", "{", ":", ",", "1", "\"a\"" }, 8, 9 },
        { "std::pair<int, std::string>", { "[", "]", "{", ",", "1", "\"a\"" }, 8, 9 },
        { "std::tuple<int, std::string, bool>", { "[", "]", "{", ",", "1", "\"a\"", "true" }, 8, 9 },
        { "std::set<int>", { "[", "]", "{", "}", ",", "1", "2" }, 8, 9 },
        { "C2", { "{", "}", "]", ":", ",", "1", "\"a\"", "\"b\"" }, 9, 11 },
        { "C2oo", { "{", "}", "[", "]", ":", ",", "true", "1", "\"x\"", "\"y\"" }, 8, 9 },
        { "C1o", { "{", "}", "[", ":", ",", "\"only\"", "\"a\"" }, 8, 10 },
        { "Tree", { "{", "}", "[", "]", ":", ",", "1", "\"value\"", "\"children\"" }, 9, 10 },
        { "std::unique_ptr<C2>", { "{", "}", "]", ":", ",", "1", "\"a\"", "\"b\"" }, 8, 9 },
        { "std::shared_ptr<std::vector<int>>", { "[", "]", "{", "}", ",", "1" }, 8, 9 },
        { "V2", { "[", "]", "{", "}", ":", ",", "1", "\"a\"", "true" }, 6, 7 },
        { "V3", { "[", "]", "{", "}", ":", ",", "1", "\"a\"", "\"b\"" }, 7, 8 },
        { "std::vector<C2>", { "[", "]", "{", "}", ":", ",", "1", "\"a\"", "\"b\"" }, 8, 9 },
    };
    for (auto& a : alphas) {
        IType* t = find_type(a.type);
        if (!t) { R.unit(std::string("missing type ") + a.type, [&R] { R.fail("type not registered"); }); continue; }
        for (auto& first : a.toks) for (auto& second : a.toks) R.unit(std::string("tokens ") + a.type + " " + first + second, [&R, t, &a, first, second, th] {
            Tok k{R, *t, a.toks, th ? a.t : a.q, {}};
            Pda p;
            if (first == second) { verdict(R, *t, first); if (first == a.toks[0]) verdict(R, *t, ""); }
            bool l1 = p.step(first);
            if (l1) {
                bool l2 = p.step(second);
                verdict(R, *t, first + " " + second);
                if (l2) k.explore(first + " " + second, p, (th ? a.t : a.q) - 2);
                else for (auto& m : a.toks) verdict(R, *t, first + " " + second + m);
            } else verdict(R, *t, first + " " + second);
            R.states(k.states.size()); R.transitions(k.trans);
        });
    }
    // 2. every single-byte edit, prefix, suffix and token edit of conforming documents
    static const std::vector<std::string> bytes = [] {
        std::vector<std::string> r;
        for (char c : std::string("{}[]:,\"\\01a-.eE+tn/* \t\n\r")) r.push_back(std::string(1, c));
        for (int c : { 0, 1, 0x0b, 0x0c, 0x1f, 0x7f, 0xa0, 0xef, 0xff }) r.push_back(std::string(1, char(c)));
        return r;
    }();
    for (IType* t : registry()) {
        if (!t->readable) continue;
        bool boost = t->name.size() <= 40 && t->name[0] != 'M' && t->name[0] != 'W';
        for (int level : { 1, 2, 3 }) {
            std::size_t cnt = t->count(level), lim = th ? 12 : boost ? 3 : 1;
            for (std::size_t i = 0; i < cnt && i < lim; ++i)
                R.unit("edits " + t->name + " L" + std::to_string(level) + " #" + std::to_string(i), [&R, t, level, i, th] {
                    bool rep;
                    Node n = t->enc(*t->make(i, level), rep);
                    if (!rep) return;
                    std::string s = jtext(n);
                    std::size_t cap = th ? 3000 : 300;
                    if (s.size() > cap) return;
                    R.sample(t->name + ": byte edits of " + show(s, 160));
                    std::size_t ib = th || s.size() < 120 ? bytes.size() : 12;
                    for (std::size_t p = 0; p <= s.size() && !R.stop(); ++p) {
                        verdict(R, *t, s.substr(0, p));                                         // truncation
                        verdict(R, *t, s.substr(p));                                            // missing head
                        if (p < s.size()) {
                            verdict(R, *t, s.substr(0, p) + s.substr(p + 1));                   // deletion
                            verdict(R, *t, s.substr(0, p + 1) + s.substr(p));                   // duplication
                            if (p + 1 < s.size()) { std::string x = s; std::swap(x[p], x[p + 1]); verdict(R, *t, x); }
                        }
                        for (std::size_t b = 0; b < ib; ++b) {
                            verdict(R, *t, s.substr(0, p) + bytes[b] + s.substr(p));            // insertion
                            if (p < s.size()) verdict(R, *t, s.substr(0, p) + bytes[b] + s.substr(p + 1));   // replacement
                        }
                    }
                });
            if (cnt) R.unit("surroundings " + t->name + " L" + std::to_string(level), [&R, t, level, th] {
                for (std::size_t i = 0; i < t->count(level) && i < 4; ++i) {
                    bool rep;
                    Node n = t->enc(*t->make(i, level), rep);
                    if (!rep) return;
                    std::string s = jtext(n);
                    if (s.size() > 4000) continue;
                    static const char* ext[] = { " ", "\n\t\r ", ",", "]", "}", ":", "x", "null", "[]", "{}", "1", "\"a\"", " 1", " null", "//c", "/**/", "\\", "\"" };
                    for (auto e : ext) { verdict(R, *t, s + e); verdict(R, *t, e + s); verdict(R, *t, s + " " + e); verdict(R, *t, std::string(e) + " " + s); }
                    for (int c = 0; c < 256; ++c) { verdict(R, *t, s + char(c)); verdict(R, *t, char(c) + s); verdict(R, *t, s + "  " + char(c)); verdict(R, *t, s + std::string(1, '\0') + char(c)); }
                    verdict(R, *t, s + s); verdict(R, *t, s + "," + s); verdict(R, *t, "[" + s); verdict(R, *t, s + std::string(100, ' ') + "1"); verdict(R, *t, std::string(100, ' ') + s + std::string(100, '\n'));
                    for (std::size_t k = 0; k <= 40; ++k) { verdict(R, *t, s + std::string(k, ' ') + "x"); verdict(R, *t, std::string(k, '\t') + s + std::string(k, '\n')); }
                }
            });
        }
        // large and deep documents that go wrong at the end, near the end or in the middle
        R.unit("large " + t->name, [&R, t, th] {
            auto edits = [&](const std::string& s) {
                if (R.stop()) return;
                verdict(R, *t, s);
                for (std::size_t k : { 1, 2, 3 }) verdict(R, *t, s.substr(0, s.size() - k));
                for (auto e : { "x", ",", "]", "}", " 1", "\"", "\n\n{}" }) verdict(R, *t, s + e);
                verdict(R, *t, s + std::string(1, '\0')); verdict(R, *t, s + std::string("\0" "1", 2)); verdict(R, *t, s + std::string(70000, ' ')); verdict(R, *t, s + std::string(70000, ' ') + "1");
                for (std::size_t m : { s.size() / 2, s.size() - s.size() / 5 }) { verdict(R, *t, s.substr(0, m)); verdict(R, *t, s.substr(0, m) + "\x01" + s.substr(m)); verdict(R, *t, s.substr(0, m) + "," + s.substr(m)); verdict(R, *t, s.substr(0, m) + "\"" + s.substr(m)); }
            };
            std::size_t big = 0, mid = 0;
            large_docs(*t, false, [&](Node& root, Node&, const std::string&) { std::string s = jtext(root); if (s.size() > 60000 ? big++ < (th ? 4u : 1u) : s.size() > 4000 && s.size() < 20000 && mid++ < (th ? 20u : 2u)) edits(s); });
            deep_docs(*t, [&](Node& root, const std::string&) { edits(jtext(root)); });
        });
        // whitespace between tokens: every boundary, every subset for short documents
        R.unit("whitespace " + t->name, [&R, t, th] {
            for (int level : { 2, 1 }) for (std::size_t i = 0; i < t->count(level) && i < 3; ++i) {
                bool rep;
                Node n = t->enc(*t->make(i, level), rep);
                if (!rep) return;
                std::string s = jtext(n);
                std::vector<std::size_t> cuts;          // token boundaries
                std::size_t p = 0;
                while (p < s.size()) {
                    cuts.push_back(p);
                    if (s[p] == '"') { ++p; while (s[p] != '"') p += s[p] == '\\' ? 2 : 1; ++p; }
                    else if (std::string("{}[]:,").find(s[p]) != std::string::npos) ++p;
                    else while (p < s.size() && std::string("{}[]:,\"").find(s[p]) == std::string::npos) ++p;
                }
                cuts.push_back(p);
                auto put = [&](std::uint64_t mask, const std::string& w) {
                    std::string o;
                    std::size_t a = 0;
                    for (std::size_t k = 0; k < cuts.size(); ++k) { o += s.substr(a, cuts[k] - a); a = cuts[k]; if (mask >> (k % 64) & 1) o += w; }
                    return o + s.substr(a);
                };
                if (cuts.size() <= (th ? 14u : 10u)) for (std::uint64_t m = 0; m < 1ull << cuts.size(); ++m) verdict(R, *t, put(m, m % 2 ? " " : "\n\t"));
                for (auto w : { " ", "\t", "\n", "\r", " \r\n\t " }) verdict(R, *t, put(~0ull, w));
                if (cuts.size() > 64) continue;
                for (std::size_t k = 0; k < cuts.size() && !R.stop(); ++k) {
                    for (auto w : { " ", "\t", "\n", "\r", "                                 ", "\v", "\f", "\xc2\xa0", "\xef\xbb\xbf", "/**/", "//\n", "#" }) verdict(R, *t, put(1ull << k, w));
                    verdict(R, *t, put(1ull << k, std::string(1, '\0')));
                }
            }
        });
    }
    // 3. number, literal and string tokens in every host
    struct Host { const char* type; const char* pre; const char* post; };
    static const std::vector<Host> hosts = { { "int", "", "" }, { "double", "", "" }, { "bool", "", "" }, { "std::string", "", "" }, { "std::nullptr_t", "", "" }, { "std::vector<int>", "[1,", "]" }, { "std::vector<double>", "[", ",2]" },
        { "std::vector<std::string>", "[\"a\",", "]" }, { "std::map<std::string, int>", "{\"a\":", "}" }, { "std::map<std::string, int>", "{", ":1}" }, { "C2", "{\"a\":", ",\"b\":\"\"}" }, { "C2", "{\"a\":1,\"b\":", "}" }, { "C2", "{\"a\":1,\"b\":\"\",", ":1}" }, { "C2oo", "{\"x\":", "}" },
        { "C2oo", "{\"zz\":", ",\"x\":true}" }, { "V2", "", "" }, { "std::set<int>", "[", "]" }, { "std::tuple<int, std::string, bool>", "[1,", ",true]" }, { "EStr", "", "" }, { "EInt", "", "" }, { "byte_vector", "", "" } };
    static const std::vector<std::string> tokens = [] {
        std::vector<std::string> r;
        for (auto s : { "01", "00", "-01", "+1", "1.", ".5", "-.5", "1e", "1e+", "1e-", "1E", "1.e1", "-", "--1", "- 1", "0x1", "0b1", "1_0", "1L", "1f", "NaN", "nan", "-NaN", "Infinity", "-Infinity", "inf", "Inf", "1 2", "1..2", "1.2.3", "1e1.5", "1e1e1", "1,", "1a", "1\"", "0-", "1-1", "1+1",
                        "Null", "NULL", "nul", "nulll", "null0", "True", "TRUE", "tru", "truee", "False", "fals", "falsee", "t", "f", "n", "undefined", "none", "None", "'a'", "a", "`a`", "\"a", "a\"", "\"a\"\"", "\"a\"b", "\"\\\"", "\"\\\\\\\"", "\"\\u\"", "\"\\u0\"", "\"\\u00\"", "\"\\u004\"", "\"\\u004g\"", "\"\\u 041\"", "\"\\uD800\"", "\"\\uD800\\u\"",
                        "\"\\uD800\\uD800\"", "\"\\uD800\\u0041\"", "\"\\uD800x\"", "\"\\uDBFF\\uE000\"", "\"\\x41\"", "\"\\'\"", "\"\\0\"", "\"\\U0041\"", "\"\\a\"", "\"\\v\"", "\"\\e\"", "()", "<>", "[1,]", "[,1]", "[1,,2]", "[1 2]", "{,}", "{\"a\"}", "{\"a\":}", "{a:1}", "{1:1}", "{\"a\":1,}", "{,\"a\":1}", "{\"a\":1 \"b\":2}", "{\"a\" 1}", "{\"a\"::1}", "[1}", "{\"a\":1]", "[", "{", "]", "}", ",", ":", "" }) r.push_back(s);
        for (int c = 0; c < 256; ++c) { r.push_back(std::string("\"\\") + char(c) + "\""); if (c < 32) r.push_back(std::string("\"x") + char(c) + "y\""); r.push_back(std::string("1") + char(c)); r.push_back(std::string(1, char(c))); r.push_back(std::string("\"\\u00") + char(c) + "1\""); }
        // every raw control character at every offset of a string longer than the vector-scan width
        for (int off = 0; off < 40; ++off) for (int c : { 0, 1, 9, 10, 31 }) r.push_back("\"" + std::string(std::size_t(off), 'x') + char(c) + std::string(20, 'y') + "\"");
        return r;
    }();
    for (auto& h : hosts) {
        IType* t = find_type(h.type);
        if (t) R.unit(std::string("tokens in ") + h.type + " " + h.pre + "_" + h.post, [&R, t, &h] { for (auto& k : tokens) if (!R.stop()) verdict(R, *t, h.pre + k + h.post); });
    }
}
