// C19: the generated JSON schema accepts what is written and nothing structurally different.
#include "lib.hpp"
#include "conf.hpp"

// Interpreter of the part of JSON Schema draft 2020-12 that concerns validation.
struct Schema {
    const Node& root;
    std::string error;                 // the schema itself is faulty
    bool lenient = false;              // oneOf taken as anyOf
    bool formats = false;              // "format" taken as an assertion
    explicit Schema(const Node& r) : root(r) {}
    bool bad(const std::string& e) { if (error.empty()) error = e; return false; }
    const Node* target(const std::string& ref) {
        if (ref.empty() || ref[0] != '#') return nullptr;
        return resolve_pointer(&root, ref.substr(1));
    }
    static bool is_int(const std::string& s) { __int128 v; bool h; return conf_int_value(s, v, h); }
    // exact comparison of two number literals that denote integers (or doubles otherwise)
    static int cmp(const std::string& a, const std::string& b) {
        __int128 x, y; bool hx, hy;
        if (conf_int_value(a, x, hx) && conf_int_value(b, y, hy) && !hy) { if (hx) return x < 0 ? -1 : 1; return x < y ? -1 : x > y; }
        long double p = std::strtold(a.c_str(), nullptr), q = std::strtold(b.c_str(), nullptr);
        return p < q ? -1 : p > q;
    }
    static bool same(const Node& a, const Node& b) {
        if (a.k == Node::Num && b.k == Node::Num) return cmp(a.s, b.s) == 0;
        if (a.k != b.k) return false;
        if (a.k == Node::Str) return a.s == b.s;
        if (a.a.size() != b.a.size()) return false;
        for (std::size_t i = 0; i < a.a.size(); ++i) { if (a.k == Node::Obj) { auto* v = b.find(a.keys[i].s); if (!v || !same(a.a[i], *v)) return false; } else if (!same(a.a[i], b.a[i])) return false; }
        return true;
    }
    bool size_of(const Node& v, std::size_t& n) { if (v.k != Node::Num || !is_int_literal(v.s) || v.s[0] == '-') return bad("length limit is not a non-negative integer"); n = std::strtoull(v.s.c_str(), nullptr, 10); return true; }
    bool type(const std::string& t, const Node& d) {
        if (t == "null") return d.k == Node::Null;
        if (t == "boolean") return d.k == Node::True || d.k == Node::False;
        if (t == "integer") return d.k == Node::Num && is_int(d.s);
        if (t == "number") return d.k == Node::Num;
        if (t == "string") return d.k == Node::Str;
        if (t == "array") return d.k == Node::Arr;
        if (t == "object") return d.k == Node::Obj;
        return bad("unknown type name " + t);
    }
    // RFC 3339 full-date and date-time, as JSON Schema defines the two formats
    bool format(const std::string& f, const std::string& v) {
        auto digits = [&](std::size_t i, std::size_t n) { for (std::size_t j = i; j < i + n; ++j) if (j >= v.size() || v[j] < '0' || v[j] > '9') return -1; return std::atoi(v.substr(i, n).c_str()); };
        auto date = [&] { return v.size() >= 10 && digits(0, 4) >= 0 && v[4] == '-' && digits(5, 2) >= 1 && digits(5, 2) <= 12 && v[7] == '-' && digits(8, 2) >= 1 && digits(8, 2) <= 31; };
        if (f == "date") return v.size() == 10 && date();
        if (f == "date-time") {
            if (!date() || v.size() < 20 || (v[10] != 'T' && v[10] != 't' && v[10] != ' ') || digits(11, 2) < 0 || digits(11, 2) > 23 || v[13] != ':' || digits(14, 2) < 0 || digits(14, 2) > 59 || v[16] != ':' || digits(17, 2) < 0 || digits(17, 2) > 60) return false;
            std::size_t i = 19;
            if (v[i] == '.') { std::size_t j = ++i; while (j < v.size() && v[j] >= '0' && v[j] <= '9') ++j; if (j == i) return false; i = j; }
            std::string z = v.substr(i);
            if (z == "Z" || z == "z") return true;
            return z.size() == 6 && (z[0] == '+' || z[0] == '-') && z[3] == ':' && digits(i + 1, 2) >= 0 && digits(i + 1, 2) <= 23 && digits(i + 4, 2) >= 0 && digits(i + 4, 2) <= 59;
        }
        return true;   // other formats are annotations
    }
    bool valid(const Node& s, const Node& d, int depth = 0) {
        if (s.k == Node::True) return true;
        if (s.k == Node::False) return false;
        if (s.k != Node::Obj) return bad("a schema is neither an object nor a boolean");
        if (depth > 400) return bad("endless recursion through references");
        bool r = true;
        if (auto* ref = s.find("$ref")) {
            if (ref->k != Node::Str) return bad("$ref is not a string");
            auto* t = target(ref->s);
            if (!t) return bad("reference does not resolve: " + ref->s);
            r = valid(*t, d, depth + 1) && r;
        }
        if (auto* t = s.find("type")) {
            if (t->k == Node::Str) r = type(t->s, d) && r;
            else if (t->k == Node::Arr) { bool any = false; for (auto& x : t->a) if (type(x.s, d)) any = true; r = any && r; }
            else return bad("type is not a string");
        }
        if (auto* e = s.find("enum")) { bool any = false; for (auto& x : e->a) if (same(x, d)) any = true; r = any && r; }
        if (auto* e = s.find("const")) r = same(*e, d) && r;
        if (d.k == Node::Num) {
            for (auto k : { "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum" }) if (auto* m = s.find(k)) {
                if (m->k != Node::Num) return bad("limit is not a number");
                int c = cmp(d.s, m->s);
                std::string key = k;
                r = (key == "minimum" ? c >= 0 : key == "maximum" ? c <= 0 : key == "exclusiveMinimum" ? c > 0 : c < 0) && r;
            }
        }
        if (d.k == Node::Str) {
            std::size_t n, len = 0;
            for (unsigned char c : d.s) if ((c & 0xc0) != 0x80) ++len;
            if (auto* m = s.find("minLength")) if (size_of(*m, n)) r = len >= n && r;
            if (auto* m = s.find("maxLength")) if (size_of(*m, n)) r = len <= n && r;
            if (auto* m = s.find("format")) { if (m->k != Node::Str) return bad("format is not a string"); if (formats) r = format(m->s, d.s) && r; }
            if (s.find("pattern")) return bad("pattern is not supported by the interpreter");
        }
        if (d.k == Node::Arr) {
            std::size_t n, prefix = 0;
            if (auto* m = s.find("minItems")) if (size_of(*m, n)) r = d.a.size() >= n && r;
            if (auto* m = s.find("maxItems")) if (size_of(*m, n)) r = d.a.size() <= n && r;
            if (auto* m = s.find("prefixItems")) { if (m->k != Node::Arr || m->a.empty()) return bad("prefixItems is not a non-empty array"); prefix = m->a.size(); for (std::size_t i = 0; i < prefix && i < d.a.size(); ++i) r = valid(m->a[i], d.a[i], depth + 1) && r; }
            if (auto* m = s.find("items")) for (std::size_t i = prefix; i < d.a.size(); ++i) r = valid(*m, d.a[i], depth + 1) && r;
            if (auto* m = s.find("uniqueItems")) if (m->k == Node::True) for (std::size_t i = 0; i < d.a.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (same(d.a[i], d.a[j])) r = false;
        }
        if (d.k == Node::Obj) {
            auto* p = s.find("properties"); auto* q = s.find("required"); auto* a = s.find("additionalProperties");
            if (p && p->k != Node::Obj) return bad("properties is not an object");
            if (q) { if (q->k != Node::Arr) return bad("required is not an array"); for (auto& x : q->a) { if (x.k != Node::Str) return bad("required holds a non-string"); if (!d.find(x.s)) r = false; } }
            for (std::size_t i = 0; i < d.a.size(); ++i) {
                const Node* sub = p ? p->find(d.keys[i].s) : nullptr;
                if (sub) r = valid(*sub, d.a[i], depth + 1) && r;
                else if (a) r = valid(*a, d.a[i], depth + 1) && r;
            }
        }
        if (auto* o = s.find("oneOf")) { if (o->k != Node::Arr || o->a.empty()) return bad("oneOf is not a non-empty array"); int k = 0; for (auto& x : o->a) k += valid(x, d, depth + 1); r = (lenient ? k >= 1 : k == 1) && r; }
        if (auto* o = s.find("anyOf")) { if (o->k != Node::Arr || o->a.empty()) return bad("anyOf is not a non-empty array"); int k = 0; for (auto& x : o->a) k += valid(x, d, depth + 1); r = k >= 1 && r; }
        if (auto* o = s.find("allOf")) for (auto& x : o->a) r = valid(x, d, depth + 1) && r;
        if (auto* o = s.find("not")) r = !valid(*o, d, depth + 1) && r;
        return r;
    }
    // every reference and every sub-schema is well-formed, whether a document reaches it or not
    void wellformed(const Node& s, bool defs = false) {
        if (s.k == Node::True || s.k == Node::False) return;
        if (s.k != Node::Obj) { bad("a schema is neither an object nor a boolean"); return; }
        if (s.has_dup_keys()) bad("the same keyword or member occurs twice");
        if (auto* ref = s.find("$ref")) { if (ref->k != Node::Str || !target(ref->s)) bad("reference does not resolve: " + ref->s); }
        for (auto k : { "items", "additionalProperties", "not" }) if (auto* x = s.find(k)) wellformed(*x);
        for (auto k : { "prefixItems", "oneOf", "anyOf", "allOf" }) if (auto* x = s.find(k)) for (auto& y : x->a) wellformed(y);
        for (auto k : { "properties", "definitions", "$defs" }) if (auto* x = s.find(k)) for (auto& y : x->a) wellformed(y);
        if (auto* q = s.find("required")) { std::set<std::string> u; auto* p = s.find("properties"); for (auto& x : q->a) { if (!u.insert(x.s).second) bad("required names a member twice"); if (!p || !p->find(x.s)) bad("required names an unknown member " + x.s); } }
        if (!defs) { Node probe; valid(s, probe); }
    }
};

void define(Run& R) {
    R.extra_names = { "written_documents", "non_conforming_documents", "several_alternatives" };
    for (IType* t : registry()) {
        if (!t->has_schema) continue;
        R.unit("schema of " + t->name, [&R, t] {
            R.at(t->name, "schema"); R.count(Run::hash("s" + t->name));
            std::string a = t->schema(), b = t->schema_doc();
            Node x, y;
            if (!jparse(a, x) || !jparse(b, y)) { R.fail("the schema is not valid JSON: " + show(a)); return; }
            Schema s(x), w(y);
            s.wellformed(x); w.wellformed(y);
            if (!s.error.empty()) R.fail("schema: " + s.error + " in " + show(a));
            if (!w.error.empty()) R.fail("schema document: " + w.error + " in " + show(b));
            auto* v = y.find("$schema");
            if (!v || v->k != Node::Str || v->s.find("json-schema.org") == std::string::npos) R.fail("schema document does not name the schema dialect");
            R.sample(t->name + ": " + show(a, 200));
            if (t->schema() != a || t->schema_doc() != b) R.fail("generating the schema twice gives different texts");
        });
        bool th = R.thorough();
        auto check = [&R, t](const Schema& sc, const Node& root, Node& d, bool written, bool doc) {
            if (has_key(d, "$ref")) return;
            std::string text = jtext(d);
            R.at(t->name, show(text));
            int c = t->conf(d);
            Schema s(root); s.formats = written;
            bool ok = s.valid(root, d);
            R.count(Run::hash(t->name + (doc ? "|D|" : "|S|") + text));
            if (!s.error.empty()) { R.fail(s.error); return; }
            if (written && !(c & 1)) { R.fail("harness: written object does not conform"); return; }
            R.extra(written ? 0 : c & 1 ? 2 : 1, 1);
            if (!(c & 1) && ok) { R.fail("the schema accepts a non-conforming document: " + show(text)); return; }
            if ((c & 1) && !(c & 4)) { Schema l(root); l.lenient = true; l.formats = written; if (!l.valid(root, d)) { R.fail(std::string("the schema refuses a ") + (written ? "written object: " : "conforming document: ") + show(text)); return; } }
            if (written && !ok) { R.fail(c & 2 ? "a written object matches several alternatives of oneOf: " + show(text) : "the schema refuses a written object: " + show(text)); return; }
        };
        for (int level : { 0, 1, 2 }) R.unit("objects of " + t->name + " L" + std::to_string(level), [&R, t, level, check, th] {
            Node x, y;
            std::string a = t->schema(), b = t->schema_doc();
            if (!jparse(a, x) || !jparse(b, y)) return;
            Schema s(x), w(y);
            std::size_t n = t->count(level), lim = th ? 1500 : 100;
            int repeats = 0;
            for (std::size_t i = 0; i < n && i < lim; ++i) {
                if (R.stop()) return;
                ValP v = t->make(n <= lim ? i : i * n / lim, level);
                bool rep; Node d = t->enc(*v, rep);
                if (!rep) continue;
                Out o = o_write(*t, *v);
                Node g;
                if (!o.ok() || !jparse(o.text, g)) { R.fail_at(t->name, "object is not written"); continue; }
                if ((t->conf(g) & 2) && ++repeats > 1) { Schema l(x); l.lenient = true; if (!l.valid(x, g)) R.fail_at(t->name, "the schema refuses a written object: " + show(jtext(g))); continue; }    // ambiguous: reported once
                check(s, x, g, true, false);
                check(w, y, g, true, true);
            }
        });
        R.unit("generic documents for " + t->name, [&R, t, check, th] {
            Node x; std::string a = t->schema(); if (!jparse(a, x)) return;
            Schema s(x);
            generic_docs([&](Node& n) { if (!R.stop()) check(s, x, n, false, false); }, th ? 3 : 2);
        });
        for (int level : { 0, 1, 2 }) R.unit("edits of " + t->name + " L" + std::to_string(level), [&R, t, level, check, th] {
            Node x; std::string a = t->schema(); if (!jparse(a, x)) return;
            Schema s(x);
            std::size_t n = t->count(level), lim = level == 0 ? (th ? 60 : 6) : level == 1 ? (th ? 40 : 4) : (th ? 20 : 3);
            for (std::size_t i = 0; i < n && i < lim; ++i) {
                if (R.stop()) return;
                ValP v = t->make(n <= lim ? i : i * n / lim, level);
                bool rep; Node d = t->enc(*v, rep);
                if (!rep || node_count(d) > (th ? 200u : 40u)) continue;
                single_edits(d, [&](Node& e) { if (!R.stop()) check(s, x, e, false, false); }, th ? 200 : 40);
            }
        });
    }
}
