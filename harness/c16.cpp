// C16: a JSON key selects a member iff it equals the member's name in full.
#include "core.hpp"
#include "c16_classes.hpp"
#include <persistence/exception.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>

static void near_misses(const std::vector<std::string>& names, std::set<std::string>& keys, bool th) {
    static const std::string cs = std::string("abqAQ1 _/~\"\\x", 13) + std::string(1, '\0') + "\x7f\n";
    for (auto s : { "", " ", "a", "b", "aa", "ab", "ba", "0", "1", "name", "Name", "null", "true", "[]", "{}", "$ref", "\xc3", "\xc3\xa9", "\xef\xbf\xbf", "\xf0\x9f\x98\x80" }) keys.insert(s);
    keys.insert(std::string(1, '\0'));
    for (auto& n : names) {
        keys.insert(n);
        for (std::size_t i = 0; i <= n.size(); i += (n.size() > 60 && i + 8 < n.size() && i % 64 > 1 && i % 64 < 62 ? (i + 31 < n.size() ? 20 : 1) : 1)) {
            keys.insert(n.substr(0, i)); keys.insert(n.substr(i));
            for (char c : cs) { std::string s = n; s.insert(i, 1, c); keys.insert(s); if (i < n.size()) { s = n; s[i] = c; keys.insert(s); } }
            if (i < n.size()) {
                std::string s = n; s.erase(i, 1); keys.insert(s);
                if (static_cast<unsigned char>(n[i]) < 128) for (int bit = 0; bit < 7; ++bit) { s = n; s[i] = char(s[i] ^ (1 << bit)); keys.insert(s); }
                s = n; s[i] = char(std::isupper(static_cast<unsigned char>(s[i])) ? std::tolower(s[i]) : std::toupper(s[i])); if (static_cast<unsigned char>(n[i]) < 128) keys.insert(s);
                for (std::size_t j = i + 1; j < n.size() && j < i + 4; ++j) { s = n; std::swap(s[i], s[j]); keys.insert(s); }
            }
        }
        keys.insert(n + n); keys.insert(std::string(n.rbegin(), n.rend()));
        keys.insert(n + std::string(40, 'z')); keys.insert(std::string(40, 'z') + n);
        if (names.size() <= 16 || th) for (auto& m : names) keys.insert(n + m);
    }
    // all short strings over a small alphabet
    for (char a = '0'; a < 127; ++a) { keys.insert(std::string(1, a)); for (char b : cs) keys.insert(std::string(1, a) + b); }
    if (names.size() <= 8) for (int a = 1; a < 127; ++a) for (int b = 1; b < 127; ++b) keys.insert(std::string(1, char(a)) + char(b));
}
// keys that are not valid UTF-8 are left open
static bool utf8(const std::string& s) {
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        int n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
        if (!n || i + std::size_t(n) > s.size()) return false;
        for (int k = 1; k < n; ++k) if ((static_cast<unsigned char>(s[i + std::size_t(k)]) & 0xC0) != 0x80) return false;
        i += std::size_t(n);
    }
    return true;
}
static std::string escaped(const std::string& k) { std::string o = "\""; char b[8]; for (unsigned char c : k) { if (c >= 0x80) o += char(c); else { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; } } return o + "\""; }

template<typename C> static void key(Run& R, const char* cn, const std::string& k) {
    auto& names = C::names();
    long hit = -1;
    for (std::size_t i = 0; i < names.size(); ++i) if (names[i] == k) hit = long(i);
    std::string q; jquote(q, k);
    R.at(std::string(cn) + " key '" + show(k) + "'");
    R.count(Run::hash(cn + k), true);
    for (int form = 0; form < 2; ++form) {
        std::string t = "{" + (form ? escaped(k) : q) + ":4711}";
        C o; bool r = persistence::parse(t, o);
        if (r != (hit >= 0)) { R.fail(r ? "parse accepts an unknown key" : "parse refuses the member's name"); return; }
        for (std::size_t i = 0; i < C::N; ++i) {
            bool set = r && long(i) == hit;
            if (r && (o.at(i).has_value() != set || (set && *o.at(i) != 4711))) { R.fail("parse: the key selects member '" + show(names[i]) + "'"); return; }
        }
        C d; r = persistence::deserialize(t, d);
        if (!r) { R.fail("deserialize refuses the document"); return; }
        for (std::size_t i = 0; i < C::N; ++i) {
            bool set = long(i) == hit;
            if (d.at(i).has_value() != set || (set && *d.at(i) != 4711)) { R.fail("deserialize: the key selects member '" + show(names[i]) + "'"); return; }
        }
    }
}
template<typename C> static void klass(Run& R, const char* cn) {
    std::set<std::string> ks;
    near_misses(C::names(), ks, R.thorough());
    std::vector<std::string> keys;
    for (auto& k : ks) if (utf8(k)) keys.push_back(k);
    std::size_t per = C::N > 50 ? 2000 : 4000;
    for (std::size_t b = 0; b < keys.size(); b += per) R.unit(std::string("keys of ") + cn + " #" + std::to_string(b), [&R, cn, keys, b, per] {
        R.sample(std::string(cn) + ": keys such as '" + show(keys[b]) + "'");
        for (std::size_t i = b; i < keys.size() && i < b + per && !R.stop(); ++i) key<C>(R, cn, keys[i]);
    });
    R.unit(std::string("all members of ") + cn, [&R, cn] {
        auto& names = C::names();
        std::size_t n = names.size();
        for (std::size_t rot = 0; rot < n; ++rot) for (int dir = 0; dir < 2; ++dir) {
            if (R.stop()) return;
            std::string t = "{";
            for (std::size_t i = 0; i < n; ++i) { std::size_t k = dir ? (rot + i) % n : (rot + n - i) % n; if (i) t += ","; jquote(t, names[k]); t += ":" + std::to_string(k * 3 + 1); }
            t += "}";
            R.at(cn, show(t)); R.count(Run::hash(t));
            C o, d;
            if (!persistence::parse(t, o) || !persistence::deserialize(t, d)) { R.fail("document with all members is refused"); return; }
            for (std::size_t i = 0; i < n; ++i) if (!o.at(i) || *o.at(i) != int(i * 3 + 1) || !d.at(i) || *d.at(i) != int(i * 3 + 1)) { R.fail("member '" + show(names[i]) + "' has the wrong value"); return; }
            std::string w;
            Node nd; if (!persistence::write_to_string(o, w) || !jparse(w, nd) || nd.keys.size() != n) { R.fail("written as " + show(w)); return; }
            for (std::size_t i = 0; i < n; ++i) if (nd.keys[i].s != names[i]) { R.fail("member written under the name '" + show(nd.keys[i].s) + "'"); return; }
        }
    });
}
#define X(C) klass<C>(R, #C);
#ifdef C16_PART2
void define_large(Run& R) { C16_CLASSES2(X) }
#elif defined(C16_PART3)
void define_huge(Run& R) { C16_CLASSES3(X) }
#else
void define_hash(Run& R);
void define_large(Run& R);
void define_huge(Run& R);
void define(Run& R) {
    C16_CLASSES1(X)
    define_large(R);
    define_huge(R);
    define_hash(R);
}
#endif
