// C21: string contents and dictionary keys are preserved byte for byte.
#include "cmp.hpp"
using std::string;
using MapS = std::map<string, string>;
using MapI = std::map<string, int>;
using UMapI = std::unordered_map<string, int>;
using MapM = std::map<string, std::map<string, int>>;
#define L_CStr(R, O, D, N) R(s, std::string) O(o, std::string) D(d, "def", std::string) R(v, std::vector<std::string>) R(m, MapS)
CLS(CStr, L_CStr)

// 0: the string, 1: in every place of a compound value
template<typename T> static bool round(Run& R, const char* name, const T& v, const string& what, bool ordered) {
    R.at(name, what);
    EncCtx c; Node n = Spec<T>::enc(v, c);
    string want = jtext(n);
    for (int mode = 0; mode < 4; ++mode) {
        string got;
        try {
            if (mode == 0) { if (!persistence::write_to_string(v, got)) { R.fail("write_to_string refuses"); return false; } }
            else if (mode == 1) got = persistence::write_to_string(v);
            else if (mode == 2) { rapidjson::Document d; if (!persistence::serialize_to_document(v, d)) { R.fail("serialize_to_document refuses"); return false; } got = persistence::document_to_string(d); }
            else got = persistence::document_to_string(persistence::serialize_to_document(v));
        } catch (const std::exception& e) { R.fail(string("writing throws: ") + e.what()); return false; }
        if (got != want) {
            Node g;
            if (!jparse(got, g)) { R.fail("invalid JSON: " + show(got)); return false; }
            if (!node_equal(n, g, ordered)) { R.fail("written as " + show(got) + " instead of " + show(want)); return false; }
        }
    }
    string s = padded(want);
    for (int mode = 0; mode < 5; ++mode) {
        T x{}; bool ok = false;
        try {
            if (mode == 0) ok = persistence::parse(s, x);
            else if (mode == 1) { x = persistence::parse<T>(s); ok = true; }
            else if (mode == 2) ok = persistence::deserialize(s, x);
            else if (mode == 3) ok = persistence::deserialize(padded(s), x);
            else { auto d = persistence::string_to_document(s); x = persistence::deserialize<T>(d); ok = true; }
        } catch (const std::exception& e) { R.fail(string("reading throws: ") + e.what()); return false; }
        EqCtx q;
        if (!ok) { R.fail("own text refused by reader " + std::to_string(mode) + ": " + show(s)); return false; }
        if (!Spec<T>::eq(v, x, q)) { R.fail("reader " + std::to_string(mode) + " gives back another string for " + show(s)); return false; }
    }
    return true;
}
static void write_only(Run& R, const string& s, const string& id) {
    // write-only forms
    string want, longer = s + "TAIL";
    jquote(want, s);
    R.at("string_view", id);
    std::string_view sv(longer.data(), s.size());
    if (persistence::write_to_string(sv) != want || persistence::document_to_string(persistence::serialize_to_document(sv)) != want) {
        Node g; string t = persistence::write_to_string(sv), u = persistence::document_to_string(persistence::serialize_to_document(sv));
        if (!jparse(t, g) || g.s != s) R.fail("string_view written as " + show(t));
        else if (!jparse(u, g) || g.s != s) R.fail("string_view serialized as " + show(u));
    }
    std::map<std::string_view, int> ml{ { sv, 1 } };
    for (int m = 0; m < 2; ++m) { string t = m ? persistence::write_to_string(ml) : persistence::document_to_string(persistence::serialize_to_document(ml)); Node g; if (!jparse(t, g) || g.keys.size() != 1 || g.keys[0].s != s) R.fail("string_view key written as " + show(t)); }
}
static void every_place(Run& R, const string& s, bool all) {
    string id = show(s, 80);
    R.count(Run::hash(s));
    round<string>(R, "string", s, id, true);
    round<MapI>(R, "key", MapI{ { s, 1 } }, id, true);
    write_only(R, s, id);
    if (!all) return;
    round<std::vector<string>>(R, "vector", { s, "x", s }, id, true);
    round<std::set<string>>(R, "set", { s, "x", s + "!" }, id, true);
    round<MapS>(R, "key and value", MapS{ { s, s }, { s + "x", "" } }, id, true);
    round<UMapI>(R, "unordered key", UMapI{ { s, 1 }, { s + string(1, '\0'), 2 } }, id, false);
    round<MapM>(R, "nested key", MapM{ { s, { { s, 3 }, { s + s + "y", 4 } } } }, id, true);
    round<std::pair<string, string>>(R, "pair", { s, s }, id, true);
    round<std::array<string, 2>>(R, "array", { s, s }, id, true);
    CStr c; c.s = s; c.o = s; c.d = s; c.v = { s, s }; c.m = { { s, s } };
    round<CStr>(R, "class", c, id, true);
    round<std::unique_ptr<string>>(R, "unique_ptr", std::make_unique<string>(s), id, true);
    round<std::shared_ptr<string>>(R, "shared_ptr", std::make_shared<string>(s), id, true);
}
// reading of a JSON text given literally; malformed text is refused
template<typename T> static void text1(Run& R, const char* name, const string& t) {
    R.at(name, show(t));
    Node n;
    JParser p(t);
    bool wf = p.document(n);
    if (p.unspecified || (wf && n.has_dup_keys())) return;
    R.count(Run::hash(name + t));
    T want{}; DecCtx c; c.root = &n;
    bool ok = wf && Spec<T>::dec(n, want, c);
    string s = padded(t);
    for (int mode = 0; mode < 5; ++mode) {
        T x{}; bool r = false;
        try {
            if (mode == 0) r = persistence::parse(s, x);
            else if (mode == 1) { x = persistence::parse<T>(s); r = true; }
            else if (mode == 2) r = persistence::deserialize(s, x);
            else if (mode == 3) r = persistence::deserialize(padded(s), x);
            else { x = persistence::deserialize<T>(s); r = true; }
        } catch (const persistence::JsonParseError&) { if (mode == 0 || mode == 2 || mode == 3) { R.fail("unexpected exception"); return; } }
        catch (const persistence::JsonDeserializationError&) { if (mode < 4) { R.fail("unexpected exception"); return; } }
        catch (const std::exception& e) { R.fail(string("exception of another kind: ") + e.what()); return; }
        if (r != ok) { R.fail("reader " + std::to_string(mode) + (r ? " accepts " : " refuses ") + show(t)); return; }
        EqCtx q;
        if (r && !Spec<T>::eq(want, x, q)) { R.fail("reader " + std::to_string(mode) + " gives another string for " + show(t)); return; }
    }
}
static void text(Run& R, const string& body, bool keys = true) {
    text1<string>(R, "string", "\"" + body + "\"");
    if (keys) { text1<MapI>(R, "key", "{\"" + body + "\":1}"); text1<std::vector<string>>(R, "vector", "[\"x\",\"" + body + "\"]"); }
}
static string u4(unsigned u, bool upper) { char b[8]; std::snprintf(b, sizeof b, upper ? "\\u%04X" : "\\u%04x", u); return b; }

void define(Run& R) {
    bool th = R.thorough();
    R.unit("empty and single bytes", [&R] { every_place(R, "", true); for (int i = 0; i < 256; ++i) every_place(R, string(1, char(i)), true); });
    for (int a = 0; a < 256; a += 16) R.unit("two bytes " + std::to_string(a), [&R, a, th] {
        for (int i = a; i < a + 16; ++i) for (int j = 0; j < 256; ++j) { if (R.stop()) return; every_place(R, string({ char(i), char(j) }), th); }
    });
    R.unit("three bytes of special classes", [&R] {
        static const unsigned char C[] = { 0, 1, 0x1f, ' ', '"', '\\', '/', 'u', 'n', '0', 'a', 0x7f, 0x80, 0xc3, 0xa9, 0xff };
        for (unsigned char a : C) for (unsigned char b : C) for (unsigned char c : C) { if (R.stop()) return; every_place(R, string({ char(a), char(b), char(c) }), false); }
    });
    // code points raw and escaped
    for (unsigned base = 0; base < 0x110000; base += 0x1000) {
        bool bmp = base < 0x10000;
        R.unit("code points from " + std::to_string(base), [&R, base, bmp, th] {
            unsigned step = bmp || th ? 1 : 61;
            for (unsigned c = base; c < base + 0x1000; c += (c + step >= base + 0x1000 && c != base + 0xfff ? base + 0xfff - c : step)) {
                if (R.stop()) return;
                if (c >= 0xD800 && c < 0xE000) continue;
                string s; JParser::utf8(s, c);
                every_place(R, "a" + s + "b", c % 256 == 0 || th);
                if (bmp) { text(R, "x" + u4(c, false) + "y", c % 64 == 0); text(R, u4(c, true), c % 64 == 1); }
                else { unsigned v = c - 0x10000; text(R, "x" + u4(0xD800 + (v >> 10), false) + u4(0xDC00 + (v & 0x3ff), true) + "y", c % 64 == 0); }
                if (c == base + 0xfff) break;
            }
        });
    }
    // lengths
    R.unit("lengths", [&R, th] {
        for (int n = 0; n <= (th ? 5000 : 700); ++n) { string s; for (int i = 0; i < n; ++i) s += char('a' + (i * 7 + n) % 26); every_place(R, s, true); }
        for (int e = 10; e <= (th ? 20 : 17); ++e) for (int d = -2; d <= 2; ++d) { string s; for (int i = 0; i < (1 << e) + d; ++i) s += char('a' + (i * 7 + e) % 26); every_place(R, s, d == 1); s[s.size() / 2] = '"'; every_place(R, s, false); }
    });
    for (int sp = 0; sp < 9; ++sp) R.unit("special character at every position " + std::to_string(sp), [&R, sp, th] {
        static const string S[] = { "\"", "\\", "\n", string(1, '\0'), "\x1f", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", "/" };
        for (int n = 0; n <= (th ? 140 : 70); ++n) for (int p = 0; p <= n; ++p) {
            if (R.stop()) return;
            string s(std::size_t(n), 'k');
            s.insert(std::size_t(p), S[sp]);
            every_place(R, s, th && n < 40);
            if (n < 40) { string q = s; q.insert(q.size() / 2 >= S[sp].size() ? 0 : q.size(), S[(sp + 1) % 9]); every_place(R, q, false); }
        }
    });
    // keys that resemble each other stay apart
    R.unit("pairs of keys", [&R] {
        std::vector<string> K = string_list(0);
        for (auto& k : key_list()) K.push_back(k);
        for (auto s : { "aa", "ab", "A", "b", "~0", "~1", "a~", "\xc3\xa9\xc3\xa9", "e\xcc\x81" }) K.push_back(s);
        K.push_back(string("a\0", 2)); K.push_back(string("a\0b", 3)); K.push_back(string("\0a", 2)); K.push_back(string(1, '\0') + string(1, '\0') + "a");
        for (std::size_t i = 0; i < K.size(); ++i) for (std::size_t j = 0; j < K.size(); ++j) {
            if (R.stop()) return;
            if (K[i] == K[j]) continue;
            R.count(Run::hash(K[i] + "\x01|" + K[j]));
            round<MapI>(R, "two keys", MapI{ { K[i], 1 }, { K[j], 2 } }, show(K[i], 60) + " , " + show(K[j], 60), true);
            if (i < j) round<UMapI>(R, "two unordered keys", UMapI{ { K[i], 1 }, { K[j], 2 } }, show(K[i], 60) + " , " + show(K[j], 60), false);
        }
    });
    // escapes
    R.unit("escape characters", [&R] {
        for (int c = 0; c < 256; ++c) for (auto pre : { "", "a", "abcdefghijklmno", "abcdefghijklmnop" }) { text(R, string(pre) + "\\" + char(c)); text(R, string(pre) + "\\" + char(c) + "z"); text(R, string(pre) + "\\\\" + char(c)); }
        for (int c = 0; c < 32; ++c) for (int n = 0; n < 40; ++n) { text(R, string(std::size_t(n), 'a') + char(c)); text(R, string(std::size_t(n), 'a') + char(c) + "b"); }
    });
    R.unit("hexadecimal digits", [&R] {
        for (int p = 0; p < 4; ++p) for (int c = 0; c < 256; ++c) for (auto base : { "0041", "00e9", "20AC", "ffff", "0000" }) { string h = base; h[std::size_t(p)] = char(c); text(R, "\\u" + h); text(R, "q\\u" + h + "41"); }
        for (auto h : { "", "0", "00", "004", "004 ", " 041", "+041", "-041", "0x41", "{41}" }) { text(R, string("\\u") + h); text(R, string("\\u") + h + "z"); text(R, string("\\U") + h); }
    });
    R.unit("surrogates", [&R, th] {
        std::vector<string> second = { "", "a", "\\", "\\n", "\\u", "\\u0041", "\\uD800", "\\uDBFF", "\\uE000", "\\uD7FF", "\\uDC0", "\\uDC0g", "\\udc00", "\\uDC00", "\\uDFFF", "\\udfff", "\\uDC00\\uDC00", "\xc3\xa9", " \\uDC00", "u DC00", "\\uDE00x" };
        for (unsigned h = 0xD800; h <= 0xDBFF; h += th ? 1 : 31) for (auto& s : second) { if (R.stop()) return; text(R, u4(h, true) + s, h % 8 == 0); text(R, "aaa" + u4(h, false) + s + "bbb", false); }
        for (unsigned h : { 0xD800u, 0xD801u, 0xDA00u, 0xDBFEu, 0xDBFFu }) for (unsigned l = 0xDB00; l <= 0xE100; ++l) { if (R.stop()) return; text(R, u4(h, true) + u4(l, l % 2), l % 16 == 0); }
        for (unsigned l : { 0xDC00u, 0xDFFFu }) for (unsigned h = 0xD7F0; h <= 0xDC10; ++h) text(R, u4(h, true) + u4(l, false), h % 16 == 0);
    });
}
