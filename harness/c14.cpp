// C14: memory safety and absence of leaks; built with AddressSanitizer and UndefinedBehaviorSanitizer.
#include "large.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#define ALLOCATED std::int64_t(__sanitizer_get_current_allocated_bytes())
#endif
#endif
#ifndef ALLOCATED
#include <malloc.h>
#define ALLOCATED std::int64_t(mallinfo2().uordblks)
#endif
// a call whose every repetition keeps memory leaks
template<typename F> static void balanced(Run& R, const char* what, F&& f) {
    std::int64_t d = 0;
    for (int i = 0; i < 3; ++i) {
        std::int64_t b = ALLOCATED;
        f();
        d = ALLOCATED - b;
        R.eval();
        if (!d) return;
    }
    R.fail(std::string(what) + " leaks " + std::to_string(d) + " bytes on every call");
}
static void read_all(Run& R, const IType& t, const std::string& text, bool full) {
    R.at(t.name, text);
    R.count(Run::hash(t.name + "|" + text), true);
    if (t.parsable) {
        balanced(R, "parse(str, obj)", [&] { o_parse(t, text); });
        if (full) balanced(R, "parse<T>(str)", [&] { o_parseT(t, text); });
    }
    balanced(R, "deserialize(str&&, obj)", [&] { o_deser(t, text, S_RVAL); });
    if (full) {
        balanced(R, "deserialize(str, obj)", [&] { o_deser(t, text, S_STR); });
        balanced(R, "deserialize(doc, obj)", [&] { o_deser(t, text, S_DOC); });
        balanced(R, "deserialize<T>(str)", [&] { o_deserT(t, text, S_STR); });
        balanced(R, "deserialize<T>(str&&)", [&] { o_deserT(t, text, S_RVAL); });
        balanced(R, "deserialize<T>(doc)", [&] { o_deserT(t, text, S_DOC); });
    }
}
static void write_all(Run& R, const IType& t, const Val& v) {
    balanced(R, "write_to_string(obj, str)", [&] { o_write(t, v); });
    balanced(R, "write_to_string(obj)", [&] { o_writeT(t, v); });
    balanced(R, "serialize_to_document(obj, doc)", [&] { rapidjson::Document d; o_ser(t, v, d); });
    balanced(R, "serialize_to_document(obj)", [&] { rapidjson::Document d; o_serT(t, v, d); });
}
// results stand on their own: the source is gone before the result is used
static void alone(Run& R, const IType& t, const std::function<ValP()>& mk, const std::string& text, bool rep) {
    for (int m = 0; m < 2; ++m) balanced(R, m ? "serialize_to_document(obj), object gone" : "serialize_to_document(obj, doc), object gone", [&] {
        ValP v = mk();
        rapidjson::Document d;
        Out o = m ? o_serT(t, *v, d) : o_ser(t, *v, d);
        v.reset();
        if (o.ok()) { std::string again = doc_text(d); if (again != o.text) R.fail("document changes with the object from which it was made: " + show(again) + " instead of " + show(o.text)); }
    });
    if (!t.readable || !rep) return;
    for (int m = 0; m < 5; ++m) balanced(R, "object read, source gone", [&] {
        Out o;
        if (m == 0) { if (!t.parsable) return; auto s = std::make_unique<std::string>(padded(text)); o = o_parse(t, *s); }
        else if (m == 1) { auto s = std::make_unique<std::string>(padded(text)); o = o_deser(t, *s, S_STR); }
        else if (m == 2) o = o_deser(t, text, S_RVAL);
        else if (m == 3) o = o_deser(t, text, S_DOC);
        else o = o_deserT(t, text, S_RVAL);
        bool r;
        if (o.ok()) t.enc(*o.v, r);
    });
}
void define(Run& R) {
    bool th = R.thorough();
    for (IType* t : registry()) {
        for (int level : { 0, 1, 2 }) R.unit("values " + t->name + " L" + std::to_string(level), [&R, t, level, th] {
            std::size_t n = t->count(level), lim = th ? 2000 : 60;
            for (std::size_t i = 0; i < n && i < lim && !R.stop(); ++i) {
                std::size_t j = n <= lim ? i : i * n / lim;
                ValP v = t->make(j, level);
                bool rep;
                std::string text = jtext(t->enc(*v, rep));
                if (!th && text.size() > 20000) continue;
                R.at(t->name + " written", text);
                R.count(Run::hash(t->name + "|w|" + text));
                write_all(R, *t, *v);
                if (t->readable && rep) read_all(R, *t, text, true);
                if (level == 1 || i % 4 == 0) alone(R, *t, [&] { return t->make(j, level); }, text, rep);
            }
        });
        if (!t->readable) continue;
        R.unit("large " + t->name, [&R, t, th] {
            large_docs(*t, false, [&](Node& n, Node& blown, const std::string& id) {
                if (R.stop() || (!th && blown.a.size() > 5000)) return;
                std::string text = jtext(n);
                read_all(R, *t, text, false);
                Ref r = ref_read(*t, n, true);
                if (r.ok) { R.at(t->name + " written", id); write_all(R, *t, *r.v); }
                for (std::size_t cut : { text.size() - 1, text.size() / 2 }) read_all(R, *t, text.substr(0, cut), false);
                if (!blown.a.empty()) { blown.a.back() = Node::str("~bad~"); read_all(R, *t, jtext(n), false); }
            });
            deep_docs(*t, [&](Node& n, const std::string&) {
                if (R.stop()) return;
                std::string text = jtext(n);
                read_all(R, *t, text, true);
                Ref r = ref_read(*t, n, true);
                if (r.ok) write_all(R, *t, *r.v);
                for (std::size_t cut = 1; cut < text.size(); cut += 7) read_all(R, *t, text.substr(0, cut), false);
            });
        });
        R.unit("documents " + t->name, [&R, t, th] {
            generic_docs([&](Node& n) { if (!R.stop()) read_all(R, *t, jtext(n), th); }, th ? 3 : 2);
        });
        R.unit("edits " + t->name, [&R, t, th] {
            for (int level : { 1, 2, 0 }) {
                std::size_t n = t->count(level), lim = th ? 20 : 3;
                for (std::size_t i = 0; i < n && i < lim && !R.stop(); ++i) {
                    ValP v = t->make(n <= lim ? i : i * n / lim, level);
                    bool rep;
                    Node base = t->enc(*v, rep);
                    if (!rep) continue;
                    std::string s = jtext(Node(base));
                    std::size_t len = s.size();
                    if (len > (th ? 20000u : 3000u)) continue;
                    single_edits(base, [&](Node& e) { if (!R.stop()) read_all(R, *t, jtext(e), false); }, th ? 60 : len <= 400 ? 12 : 4);
                    if (len > 600 && !th) continue;
                    for (std::size_t p = 0; p < len && !R.stop(); ++p) {
                        read_all(R, *t, s.substr(0, p), true);                                     // every prefix
                        for (unsigned char c : { '\0', '"', '\\', '{', '[', ']', '}', ',', '9', '-', 'e', 'u', '\x80', '\xff' }) { std::string m = s; m[p] = char(c); read_all(R, *t, m, false); }
                        read_all(R, *t, s.substr(0, p) + "\"" + s.substr(p), false);
                        read_all(R, *t, s.substr(0, p) + s.substr(p + 1), false);
                    }
                }
            }
        });
        // brackets beyond any supported depth
        R.unit("nesting " + t->name, [&R, t, th] {
            for (int d = 1; d <= (th ? 1500 : 400) && !R.stop(); d += d < 40 || th ? 1 : 7) for (const char* open : { "[", "{\"a\":", "{\"children\":[", "[{\"next\":" , "[[{\"kids\":{\"k\":" }) {
                std::string s;
                for (int i = 0; i < d; ++i) s += open;
                read_all(R, *t, s, d % 50 == 0);
                for (int i = int(s.size()); i-- > 0;) if (s[std::size_t(i)] == '[') s += ']'; else if (s[std::size_t(i)] == '{') s += '}';
                read_all(R, *t, s, d % 50 == 0);
            }
        });
    }
}
