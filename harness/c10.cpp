// C10: Base64 codec against an independent RFC 4648 reference; exact-size heap buffers (sanitized build detects any access outside).
#include "core.hpp"
#include "types.hpp"
#include <persistence/base64.hpp>
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>

static std::string hex(const byte_vector& b) { std::string s; char t[4]; for (auto x : b) { std::snprintf(t, sizeof t, "%02x", unsigned(x)); s += t; } return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

// the view starts `off` bytes into a heap block and ends exactly at its end
struct Exact {
    std::unique_ptr<char[]> p; std::size_t off, n;
    Exact(const void* d, std::size_t n, std::size_t off) : p(new char[n + off]), off(off), n(n) { if (n) std::memcpy(p.get() + off, d, n); }
    const char* data() const { return p.get() + off; }
};
static bool enc_case(Run& R, const byte_vector& b, std::size_t off, const char* prior = "") {
    std::string want = ref_b64_encode(b);
    Exact e(b.data(), b.size(), off);
    std::string got = prior;
    R.eval();
    if (!persistence::base64_encode(persistence::byte_view(reinterpret_cast<const std::byte*>(e.data()), e.n), got)) { R.fail_at(hex(b), "encoding fails"); return false; }
    if (got != want) { R.fail_at(hex(b), "encoded as " + show(got) + " instead of " + want); return false; }
    byte_vector back(3, std::byte(7));
    Exact t(got.data(), got.size(), off);
    if (!persistence::base64_decode(std::string_view(t.data(), t.n), back) || back != b) { R.fail_at(hex(b), "text " + want + " decodes as " + hex(back)); return false; }
    return true;
}
static bool dec_case(Run& R, const char* s, std::size_t n) {
    static byte_vector want; static std::string tmp;
    tmp.assign(s, n);
    int w = ref_b64_decode(tmp, want);
    byte_vector got(1, std::byte(9));
    bool r = persistence::base64_decode(std::string_view(s, n), got);
    if (w == 2) return true;
    if (r != (w == 1)) { R.fail_at(show(tmp), r ? "malformed Base64 text is accepted as " + hex(got) : "well-formed Base64 text is refused"); return false; }
    if (r && got != want) { R.fail_at(show(tmp), "decodes as " + hex(got) + " instead of " + hex(want)); return false; }
    return true;
}
struct BM { using HarnessClass = BM; byte_vector data; std::optional<byte_vector> opt; std::vector<byte_vector> list;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(data) & MEMBER_VARIABLE(opt) & MEMBER_VARIABLE(list); }
    template<typename F> static void fields(F& f) { f.req("data", &BM::data); f.opt("opt", &BM::opt); f.req("list", &BM::list); } };

template<typename T> static void object(Run& R, const T& v, const std::string& id) {
    R.at(id);
    EncCtx c;
    Node n = Spec<T>::enc(v, c);
    std::string want = jtext(n);
    R.count(Run::hash(id + want));
    std::string w;
    if (!persistence::write_to_string(v, w) || w != want) { R.fail("written as " + show(w) + " instead of " + show(want)); return; }
    rapidjson::Document d;
    if (!persistence::serialize_to_document(v, d) || persistence::document_to_string(d) != want) { R.fail("serialized differently from " + show(want)); return; }
    EqCtx q1, q2;
    T a{}, b{};
    if (!persistence::parse(w, a) || !Spec<T>::eq(a, v, q1)) { R.fail("parsing " + show(want) + " does not give the bytes back"); return; }
    if (!persistence::deserialize(w, b) || !Spec<T>::eq(b, v, q2)) { R.fail("deserializing " + show(want) + " does not give the bytes back"); return; }
}
template<typename T> static void text_object(Run& R, const std::string& s, const char* ctx, const std::function<std::string(const std::string&)>& wrap) {
    std::string q; jquote(q, s);
    std::string t = wrap(q);
    R.at(ctx, show(t));
    Node n; if (!jparse(t, n)) return;
    byte_vector tmp; if (ref_b64_decode(s, tmp) == 2) return;
    R.count(Run::hash(t));
    DecCtx c; T want{}; c.root = &n;
    bool ok = Spec<T>::dec(n, want, c);
    T a{}, b{};
    EqCtx q1, q2;
    if (persistence::parse(t, a) != ok) { R.fail(std::string("parse ") + (ok ? "refuses" : "accepts")); return; }
    if (persistence::deserialize(t, b) != ok) { R.fail(std::string("deserialize ") + (ok ? "refuses" : "accepts")); return; }
    if (ok && (!Spec<T>::eq(a, want, q1) || !Spec<T>::eq(b, want, q2))) R.fail("bytes differ");
}
void define(Run& R) {
    bool th = R.thorough();
#ifdef C10_BOUNDS
    // every length x alignment x content pattern, exact-size buffers
    for (int L = 0; L <= (th ? 4200 : 420); L += 10) R.unit("lengths " + std::to_string(L), [&R, L] {
        for (int n = L; n < L + 10; ++n) for (unsigned off = 0; off < 16; ++off) for (unsigned seed : { 0u, 1u, 255u, 0x5Au }) {
            if (R.stop()) return;
            byte_vector b;
            for (int i = 0; i < n; ++i) b.push_back(std::byte(seed == 0 ? 0 : seed == 255 ? 255 : seed * unsigned(i + 1) * 73 + unsigned(i * i)));
            R.at("length " + std::to_string(n) + " alignment " + std::to_string(off));
            R.count(std::uint64_t(n) * 1000003 + off * 64 + seed);
            if (!enc_case(R, b, off)) return;
            std::string o;
            Exact e(b.data(), b.size(), off);
            if (!persistence::base64_encode(std::string_view(e.data(), e.n), o) || o != ref_b64_encode(b)) { R.fail("string_view overload differs"); return; }
            o = "xx";
            if (!persistence::base64_encode(b, o) || o != ref_b64_encode(b)) { R.fail("byte_vector overload differs"); return; }
        }
    });
    // lengths around powers of two
    for (int e = 9; e <= (th ? 20 : 17); ++e) R.unit("around two to the " + std::to_string(e), [&R, e] {
        for (int d = -13; d <= 13; ++d) for (unsigned off = 0; off < 16; off += e < 13 ? 1 : 5) {
            if (R.stop()) return;
            int n = (1 << e) + d;
            byte_vector b; for (int i = 0; i < n; ++i) b.push_back(std::byte(unsigned(i) * 73 + unsigned(i >> 8) * 31));
            R.at("length " + std::to_string(n) + " alignment " + std::to_string(off));
            R.count(std::uint64_t(n) * 64 + off);
            if (!enc_case(R, b, off)) return;
            std::string t = ref_b64_encode(b);
            { Exact x(t.data(), t.size(), off); if (!dec_case(R, x.data(), x.n)) return; }
            for (std::size_t at : { std::size_t(0), t.size() / 2, t.size() - 9, t.size() - 5, t.size() - 3, t.size() - 1 }) for (char ch : { '=', '*', '\0', '\xff' }) {
                std::string s = t; s[at] = ch;
                Exact x(s.data(), s.size(), off); if (!dec_case(R, x.data(), x.n)) return;
            }
            for (std::size_t cut = 1; cut < 5; ++cut) { Exact x(t.data(), t.size() - cut, off); if (!dec_case(R, x.data(), x.n)) return; }
        }
    });
    // decoding malformed text of every length from exact-size buffers
    for (int L = 0; L <= (th ? 600 : 80); L += 4) R.unit("malformed lengths " + std::to_string(L), [&R, L] {
        for (int n = L; n < L + 4; ++n) {
            std::string good;
            for (int i = 0; i < n; ++i) good += B64[(i * 7 + n) % 64];
            for (unsigned off = 0; off < 9; off += 4) for (int pos = -1; pos < n; ++pos) for (int ch = 0; ch < 256; ch += (pos < 0 ? 256 : 1)) {
                if (R.stop()) return;
                std::string s = good;
                if (pos >= 0) s[std::size_t(pos)] = char(ch);
                R.count(Run::hash(s) + off);
                Exact e(s.data(), s.size(), off);
                if (!dec_case(R, e.data(), e.n)) return;
            }
        }
    });
#else
    for (int a = 0; a < 256; ++a) R.unit("three bytes " + std::to_string(a), [&R, a] {
        R.sample("all byte sequences " + std::to_string(a) + ",*,*");
        byte_vector v{ std::byte(a) };
        R.count(std::uint64_t(a));
        if (!enc_case(R, v, 0)) return;
        for (int b = 0; b < 256; ++b) {
            v = { std::byte(a), std::byte(b) };
            R.count(std::uint64_t(a * 256 + b + 1000));
            if (!enc_case(R, v, 0)) return;
            R.at("three bytes " + std::to_string(a) + "," + std::to_string(b));
            for (int c = 0; c < 256; ++c) {
                byte_vector w{ std::byte(a), std::byte(b), std::byte(c) };
                std::string got; byte_vector back;
                persistence::base64_encode(w, got);
                R.count(std::uint64_t(a * 65536 + b * 256 + c + 100000));
                char want[4] = { B64[a >> 2], B64[(a & 3) << 4 | b >> 4], B64[(b & 15) << 2 | c >> 6], B64[c & 63] };
                if (got.size() != 4 || std::memcmp(got.data(), want, 4)) { R.fail_at(hex(w), "encoded as " + show(got)); return; }
                if (!persistence::base64_decode(got, back) || back != w) { R.fail_at(hex(w), "decoded as " + hex(back)); return; }
            }
        }
    });
    R.unit("empty", [&R] { byte_vector v; R.at("empty"); R.count(1); enc_case(R, v, 0, "previous"); dec_case(R, "", 0); std::string o = "x"; if (!persistence::base64_encode(std::string_view(), o) || !o.empty()) R.fail("empty view is encoded as " + o); });
    // each byte value at each position of longer sequences (words, triplets and tails)
    for (int n = 3; n <= 34; ++n) R.unit("byte at position, length " + std::to_string(n), [&R, n] {
        for (int pos = 0; pos < n; ++pos) for (int x = 0; x < 256; ++x) for (int bg : { 0, 255, 0xA5 }) {
            if (R.stop()) return;
            byte_vector b; b.resize(std::size_t(n), std::byte(bg)); b[std::size_t(pos)] = std::byte(x);
            R.count(std::uint64_t(n) << 40 | std::uint64_t(pos) << 30 | std::uint64_t(x) << 16 | std::uint64_t(bg));
            if (!enc_case(R, b, 0)) return;
        }
    });
    // all texts of four characters over alphabet classes
    static const std::string cls = std::string("ABPQZafgvwz0459+/=-_ .,@[`{\n", 28) + std::string(1, '\0') + "\x7f\x80\xc1\xff" + (th ? std::string("CDEFGHIJKLMNOYbcdehijklmuxy123678!#%*:;<>?^|~") : std::string());
    for (std::size_t i = 0; i < cls.size(); ++i) R.unit("four characters " + std::to_string(i), [&R, i] {
        for (char b : cls) for (char c : cls) for (char d : cls) {
            char s[4] = { cls[i], b, c, d };
            if (R.stop()) return;
            R.count(Run::hash(std::string(s, 4)));
            if (!dec_case(R, s, 4)) return;
        }
    });
    // every byte at every position of one to three quadruplets, padded or not
    R.unit("mutations", [&R] {
        for (std::string base : { "QUJD", "QUI=", "QQ==", "QUJDREVG", "QUJDREU=", "QUJDRA==", "QUJDREVGR0hJ", "QUJDREVGR0g=", "QUJDREVGRw==" })
            for (std::size_t p = 0; p < base.size(); ++p) for (int x = 0; x < 256; ++x) for (std::size_t q = p; q < base.size(); ++q) for (int y : { -1, int('='), 0, int('A'), 0x80 }) {
                if (R.stop()) return;
                std::string s = base; s[p] = char(x); if (y >= 0) s[q] = char(y); else if (q > p) continue;
                R.at("mutation " + show(s));
                R.count(Run::hash(s));
                if (!dec_case(R, s.data(), s.size())) return;
            }
    });
    // every padding pattern of up to three quadruplets
    R.unit("padding patterns", [&R] {
        for (int n = 0; n <= 12; ++n) for (int m = 0; m < 1 << n; ++m) {
            if (R.stop()) return;
            std::string s; for (int i = 0; i < n; ++i) s += (m >> i & 1) ? '=' : 'A';
            R.at("padding " + s); R.count(Run::hash(s));
            if (!dec_case(R, s.data(), s.size())) return;
        }
    });
    // inside objects
    R.unit("objects", [&R] {
        for (int n = 0; n <= 130; ++n) for (unsigned seed : { 0u, 3u, 255u }) {
            if (R.stop()) return;
            byte_vector b = Spec<byte_vector>::mk(std::size_t(n), seed), c = Spec<byte_vector>::mk(std::size_t(n % 7), seed + 1);
            std::string id = "length " + std::to_string(n) + "/" + std::to_string(seed) + " ";
            object(R, b, id + "top");
            object(R, std::vector<byte_vector>{ b, c, b }, id + "vector");
            object(R, std::set<byte_vector>{ b, c }, id + "set");
            object(R, std::map<std::string, byte_vector>{ { "k", b }, { "l", c } }, id + "map");
            object(R, std::array<byte_vector, 2>{ c, b }, id + "array");
            object(R, std::make_pair(b, c), id + "pair");
            object(R, std::make_tuple(c, b, 1), id + "tuple");
            object(R, std::make_shared<byte_vector>(b), id + "shared");
            BM m; m.data = b; m.opt = c; m.list = { b, c }; object(R, m, id + "class");
            m.opt.reset(); object(R, m, id + "class without");
        }
    });
    for (std::size_t n : { 1000u, 3070u, 12288u, 24576u, 49149u, 49150u, 49151u, 49152u, 49153u, 65535u, 65536u, 65537u, 98304u, 98305u, 131074u, 196611u }) R.unit("large objects " + std::to_string(n), [&R, n] {
        byte_vector b = Spec<byte_vector>::mk(n, 7), c = Spec<byte_vector>::mk(n % 7, 8);
        enc_case(R, b, 0);
        object(R, b, "top");
        object(R, std::vector<byte_vector>{ b, c, b }, "vector");
        object(R, std::map<std::string, byte_vector>{ { "k", b }, { "l", c } }, "map");
        BM m; m.data = b; m.opt = b; m.list = { b, c }; object(R, m, "class");
        std::string t = ref_b64_encode(b);
        for (std::size_t p : { std::size_t(0), t.size() / 2, t.size() - 5, t.size() - 1 }) for (char x : { '!', '=', '\0', ' ' }) {
            std::string u = t; if (u[p] == x) continue; u[p] = x;
            text_object<byte_vector>(R, u, "altered", [](const std::string& q) { return q; });
        }
        text_object<byte_vector>(R, t + "A", "longer", [](const std::string& q) { return q; });
        text_object<byte_vector>(R, t.substr(1), "shorter", [](const std::string& q) { return q; });
    });
    R.unit("texts in objects", [&R] {
        for (std::string base : { "", "QUJD", "QUI=", "QQ==", "QUJDRA==" }) {
            std::vector<std::string> l = { base, base + "=", base + "A", "=" + base, base + "\n", " " + base, base + std::string(1, '\0') };
            for (std::size_t p = 0; p < base.size(); ++p) for (int x = 0; x < 128; ++x) { auto s = base; s[p] = char(x); l.push_back(s); }
            for (auto& s : l) {
                if (R.stop()) return;
                text_object<byte_vector>(R, s, "top", [](const std::string& q) { return q; });
                text_object<std::vector<byte_vector>>(R, s, "vector", [](const std::string& q) { return "[\"\"," + q + ",\"AAAA\"]"; });
                text_object<BM>(R, s, "class", [](const std::string& q) { return "{\"list\":[" + q + "],\"opt\":" + q + ",\"data\":" + q + "}"; });
                text_object<std::map<std::string, byte_vector>>(R, s, "map", [](const std::string& q) { return "{\"a\":" + q + ",\"b\":\"\"}"; });
            }
        }
    });
#endif
}
