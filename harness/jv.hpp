// Independent JSON syntax model: strict RFC 8259 parser with source positions, and a compact printer.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

struct Key { std::string s; std::size_t beg = 0, end = 0; };

struct Node {
    enum K : std::uint8_t { Null, False, True, Num, Str, Arr, Obj };
    K k = Null;
    std::string s;            // string contents or number literal
    std::vector<Node> a;      // array elements / object values
    std::vector<Key> keys;    // object keys
    std::size_t beg = 0, end = 0;

    static Node null() { return Node(); }
    static Node boolean(bool b) { Node n; n.k = b ? True : False; return n; }
    static Node num(std::string lit) { Node n; n.k = Num; n.s = std::move(lit); return n; }
    static Node str(std::string v) { Node n; n.k = Str; n.s = std::move(v); return n; }
    static Node arr() { Node n; n.k = Arr; return n; }
    static Node obj() { Node n; n.k = Obj; return n; }
    void add(Node v) { a.push_back(std::move(v)); }
    void add(std::string key, Node v) { keys.push_back({std::move(key), 0, 0}); a.push_back(std::move(v)); }
    const Node* find(std::string_view key) const {
        for (std::size_t i = 0; i < keys.size(); ++i) if (keys[i].s == key) return &a[i];
        return nullptr;
    }
    bool has_dup_keys() const {
        if (keys.size() > 64) {
            std::vector<std::string_view> k;
            for (auto& x : keys) k.push_back(x.s);
            std::sort(k.begin(), k.end());
            if (std::adjacent_find(k.begin(), k.end()) != k.end()) return true;
        } else
            for (std::size_t i = 0; i < keys.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (keys[i].s == keys[j].s) return true;
        for (auto& c : a) if (c.has_dup_keys()) return true;
        return false;
    }
};

inline bool is_int_literal(const std::string& s) {
    for (char c : s) if (c == '.' || c == 'e' || c == 'E') return false;
    return true;
}

// structural equality; integers by literal, other numbers by the double they denote
inline bool num_equal(const std::string& a, const std::string& b) {
    bool ia = is_int_literal(a), ib = is_int_literal(b);
    if (ia != ib) return false;
    if (ia) return a == b;
    double x = std::strtod(a.c_str(), nullptr), y = std::strtod(b.c_str(), nullptr);
    return std::memcmp(&x, &y, sizeof x) == 0;
}
inline bool node_equal(const Node& x, const Node& y, bool ordered = true) {
    if (x.k != y.k) return false;
    switch (x.k) {
    case Node::Num: return num_equal(x.s, y.s);
    case Node::Str: return x.s == y.s;
    case Node::Arr:
        if (x.a.size() != y.a.size()) return false;
        for (std::size_t i = 0; i < x.a.size(); ++i) if (!node_equal(x.a[i], y.a[i], ordered)) return false;
        return true;
    case Node::Obj:
        if (x.a.size() != y.a.size()) return false;
        for (std::size_t i = 0; i < x.a.size(); ++i) {
            if (ordered) { if (x.keys[i].s != y.keys[i].s || !node_equal(x.a[i], y.a[i], ordered)) return false; }
            else { auto* p = y.find(x.keys[i].s); if (!p || !node_equal(x.a[i], *p, ordered)) return false; }
        }
        return true;
    default: return true;
    }
}

struct JParser {
    const std::string& t;
    std::size_t p = 0;
    bool unspecified = false;   // text uses a construct whose treatment is left open (unpaired low surrogate)
    bool overflow = false;      // a number literal that overflows double
    int depth = 0, max_depth = 100000;
    explicit JParser(const std::string& t) : t(t) {}
    int cur() const { return p < t.size() ? static_cast<unsigned char>(t[p]) : -1; }
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
    bool lit(const char* w) { std::size_t n = std::strlen(w); if (t.compare(p, n, w) != 0) return false; p += n; return true; }
    bool hex4(unsigned& u) {
        if (p + 4 > t.size()) return false;
        u = 0;
        for (int i = 0; i < 4; ++i) {
            char c = t[p + i]; u <<= 4;
            if (c >= '0' && c <= '9') u |= unsigned(c - '0');
            else if (c >= 'a' && c <= 'f') u |= unsigned(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') u |= unsigned(c - 'A' + 10);
            else return false;
        }
        p += 4;
        return true;
    }
    static void utf8(std::string& o, unsigned c) {
        if (c < 0x80) o += char(c);
        else if (c < 0x800) { o += char(0xC0 | (c >> 6)); o += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += char(0xE0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xF0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    }
    bool string(std::string& o) {
        if (cur() != '"') return false;
        ++p;
        for (;;) {
            int c = cur();
            if (c < 0x20) return false;   // includes end of text
            ++p;
            if (c == '"') return true;
            if (c != '\\') { o += char(c); continue; }
            int e = cur(); ++p;
            switch (e) {
            case '"': o += '"'; break;
            case '\\': o += '\\'; break;
            case '/': o += '/'; break;
            case 'b': o += '\b'; break;
            case 'f': o += '\f'; break;
            case 'n': o += '\n'; break;
            case 'r': o += '\r'; break;
            case 't': o += '\t'; break;
            case 'u': {
                unsigned u, v;
                if (!hex4(u)) return false;
                if (u >= 0xD800 && u <= 0xDBFF) {
                    if (cur() != '\\') return false;
                    ++p;
                    if (cur() != 'u') return false;
                    ++p;
                    if (!hex4(v) || v < 0xDC00 || v > 0xDFFF) return false;
                    u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00);
                } else if (u >= 0xDC00 && u <= 0xDFFF) unspecified = true;
                utf8(o, u);
                break;
            }
            default: return false;
            }
        }
    }
    bool digits() { if (cur() < '0' || cur() > '9') return false; while (cur() >= '0' && cur() <= '9') ++p; return true; }
    bool number(Node& n) {
        std::size_t b = p;
        if (cur() == '-') ++p;
        if (cur() == '0') ++p; else if (!digits()) return false;
        if (cur() == '.') { ++p; if (!digits()) return false; }
        if (cur() == 'e' || cur() == 'E') { ++p; if (cur() == '+' || cur() == '-') ++p; if (!digits()) return false; }
        n.k = Node::Num; n.s = t.substr(b, p - b);
        double d = std::strtod(n.s.c_str(), nullptr);
        if (d > 1.7976931348623157e308 || d < -1.7976931348623157e308) overflow = true;
        return true;
    }
    bool value(Node& n) {
        ws();
        n.beg = p;
        bool r = value_(n);
        n.end = p;
        return r;
    }
    bool value_(Node& n) {
        if (++depth > max_depth) return false;
        bool r = false;
        switch (cur()) {
        case 'n': n.k = Node::Null; r = lit("null"); break;
        case 't': n.k = Node::True; r = lit("true"); break;
        case 'f': n.k = Node::False; r = lit("false"); break;
        case '"': n.k = Node::Str; r = string(n.s); break;
        case '[': {
            n.k = Node::Arr; ++p; ws();
            if (cur() == ']') { ++p; r = true; break; }
            for (;;) {
                n.a.emplace_back();
                if (!value(n.a.back())) return false;
                ws();
                if (cur() == ',') { ++p; continue; }
                if (cur() == ']') { ++p; r = true; break; }
                return false;
            }
            break;
        }
        case '{': {
            n.k = Node::Obj; ++p; ws();
            if (cur() == '}') { ++p; r = true; break; }
            for (;;) {
                ws();
                n.keys.emplace_back();
                n.keys.back().beg = p;
                if (!string(n.keys.back().s)) return false;
                n.keys.back().end = p;
                ws();
                if (cur() != ':') return false;
                ++p;
                n.a.emplace_back();
                if (!value(n.a.back())) return false;
                ws();
                if (cur() == ',') { ++p; continue; }
                if (cur() == '}') { ++p; r = true; break; }
                return false;
            }
            break;
        }
        default: r = number(n);
        }
        --depth;
        return r;
    }
    bool document(Node& n) {
        if (!value(n)) return false;
        ws();
        return p == t.size();
    }
};

inline bool jparse(const std::string& t, Node& n) { JParser p(t); return p.document(n); }

inline void jquote(std::string& o, const std::string& s) {
    static const char* H = "0123456789ABCDEF";
    o += '"';
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\b': o += "\\b"; break;
        case '\f': o += "\\f"; break;
        case '\n': o += "\\n"; break;
        case '\r': o += "\\r"; break;
        case '\t': o += "\\t"; break;
        default:
            if (c < 0x20) { o += "\\u00"; o += H[c >> 4]; o += H[c & 15]; }
            else o += char(c);
        }
    }
    o += '"';
}

// prints compact JSON and records token positions into the node
inline void jprint(Node& n, std::string& o) {
    n.beg = o.size();
    switch (n.k) {
    case Node::Null: o += "null"; break;
    case Node::True: o += "true"; break;
    case Node::False: o += "false"; break;
    case Node::Num: o += n.s; break;
    case Node::Str: jquote(o, n.s); break;
    case Node::Arr:
        o += '[';
        for (std::size_t i = 0; i < n.a.size(); ++i) { if (i) o += ','; jprint(n.a[i], o); }
        o += ']';
        break;
    case Node::Obj:
        o += '{';
        for (std::size_t i = 0; i < n.a.size(); ++i) {
            if (i) o += ',';
            n.keys[i].beg = o.size(); jquote(o, n.keys[i].s); n.keys[i].end = o.size();
            o += ':';
            jprint(n.a[i], o);
        }
        o += '}';
        break;
    }
    n.end = o.size();
}
inline std::string jtext(Node& n) { std::string o; jprint(n, o); return o; }
inline std::string jtext(Node&& n) { std::string o; jprint(n, o); return o; }

// printable form of arbitrary bytes for reports
inline std::string show(const std::string& s, std::size_t max = 400) {
    static const char* H = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) {
        if (o.size() > max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        if (c == '\\') o += "\\\\";
        else if (c >= 0x20 && c < 0x7f) o += char(c);
        else { o += "\\x"; o += H[c >> 4]; o += H[c & 15]; }
    }
    return o;
}
