// C18: nothing is remembered about an argument: other contents at the same address (an object, a string, a document that was
// changed between two calls) give the outcome of a first call.
#include "lib.hpp"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>

static std::string value_text(const IType& t, const Val& v) { bool ok; Node n = t.enc(v, ok); return jtext(n) + (ok ? "" : " (not representable)"); }
static std::string outcome(const IType& t, const Out& o) { return o.str() + " " + o.path + " " + std::to_string(o.offset) + " " + o.what + " " + o.text + (o.ok() && o.v ? " => " + value_text(t, *o.v) : std::string()); }

enum { W, WT, S, ST, NW, P = NW, PT, DS, DST, DR, DRT, DD, DDT, NF };
static const char* const NAME[] = { "write_to_string(obj, text)", "write_to_string(obj)", "serialize_to_document(obj, document)", "serialize_to_document(obj)", "parse(text, obj)", "parse<T>(text)", "deserialize(text, obj)",
    "deserialize<T>(text)", "deserialize(temporary, obj)", "deserialize<T>(temporary)", "deserialize(document, obj)", "deserialize<T>(document)" };
struct Place { ValP obj; std::string text; rapidjson::Document doc; std::string out; rapidjson::Document outdoc; };   // the arguments of all calls
struct Args { std::vector<std::pair<std::size_t, int>> values; std::vector<std::string> texts; };

static std::string one(const IType& t, const Args& a, Place& p, int f, std::size_t i) {
    if (f < NW) t.remake(*p.obj, a.values[i].first, a.values[i].second);
    else {
        p.text.assign(a.texts[i]);
        if (f >= DD) { p.doc.SetNull(); p.doc.Parse(p.text.c_str(), p.text.size()); }
    }
    return outcome(t, call([&](Out& o) {
        switch (f) {
        case W: p.out = "before"; o.k = t.write(*p.obj, p.out) ? Out::Ok : Out::False; o.text = p.out; break;
        case WT: o.text = t.writeT(*p.obj); break;
        case S: o.k = t.ser(*p.obj, p.outdoc) ? Out::Ok : Out::False; if (o.ok()) o.text = doc_text(p.outdoc); break;
        case ST: { auto d = t.serT(*p.obj); o.text = doc_text(d); break; }
        case P: o.v = t.fresh(); o.k = t.parse(p.text, *o.v) ? Out::Ok : Out::False; break;
        case PT: o.v = t.parseT(p.text); break;
        case DS: o.v = t.fresh(); o.k = t.deserS(p.text, *o.v) ? Out::Ok : Out::False; break;
        case DST: o.v = t.deserST(p.text); break;
        case DR: { std::string c(p.text); o.v = t.fresh(); o.k = t.deserR(std::move(c), *o.v) ? Out::Ok : Out::False; break; }
        case DRT: { std::string c(p.text); o.v = t.deserRT(std::move(c)); break; }
        case DD: o.v = t.fresh(); o.k = t.deserD(p.doc, *o.v) ? Out::Ok : Out::False; break;
        case DDT: o.v = t.deserDT(p.doc); break;
        }
    }));
}
static bool possible(const IType& t, int f) { return f < NW || (f <= PT ? t.parsable : t.readable); }
static std::size_t number(const Args& a, int f) { return f < NW ? a.values.size() : a.texts.size(); }
// the outcome of every call as the first one of its kind in a process
static std::vector<std::string> alone(const IType& t, const Args& a, Place& p, std::size_t i, std::string& err) {
    int q[2];
    if (pipe(q)) { err = "pipe"; return {}; }
    pid_t pid = fork();
    if (pid == 0) {
        ::close(q[0]);
        alarm(60);
        std::string s;
        for (int f = 0; f < NF; ++f) if (possible(t, f) && i < number(a, f)) { std::string r = one(t, a, p, f, i); std::uint64_t n = r.size(); s.append(reinterpret_cast<char*>(&n), 8); s += r; }
        for (std::size_t k = 0; k < s.size();) { ssize_t n = ::write(q[1], s.data() + k, s.size() - k); if (n <= 0) break; k += std::size_t(n); }
        _exit(0);
    }
    ::close(q[1]);
    std::string s; char b[65536]; ssize_t n;
    while ((n = ::read(q[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) s.append(b, std::size_t(n));
    ::close(q[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) err = "a call crashes";
    std::vector<std::string> r(NF);
    std::size_t k = 0;
    for (int f = 0; f < NF; ++f) if (possible(t, f) && i < number(a, f)) { std::uint64_t m; if (k + 8 > s.size()) break; std::memcpy(&m, s.data() + k, 8); r[std::size_t(f)] = s.substr(k + 8, m); k += 8 + m; }
    return r;
}
void define(Run& R) {
    for (IType* t : registry()) R.unit("same address " + t->name, [&R, t] {
        R.at(t->name, "arguments");
        Args a;
        const std::size_t most = R.thorough() ? 24 : 10;
        for (int level : { 1, 0 }) {
            std::size_t n = t->count(level), take = std::min(n, level ? most - 2 : std::size_t(2));
            for (std::size_t k = 0; k < take; ++k) a.values.emplace_back(k * n / take, level);
        }
        std::vector<Node> docs;
        std::vector<std::string> bad;
        for (auto& v : a.values) {
            bool ok; ValP x = t->make(v.first, v.second); Node n = t->enc(*x, ok);
            if (!ok || jtext(n).size() > 3000) continue;
            docs.push_back(n);
        }
        for (std::size_t k = 0; k < docs.size() && k < most; ++k) { a.texts.push_back(jtext(docs[k])); if (k % 3 == 0 && !a.texts.back().empty()) bad.push_back(a.texts.back().substr(0, a.texts.back().size() - 1)); }
        if (!docs.empty()) { std::size_t k = 0; single_edits(docs[docs.size() / 2], [&](Node& n) { if (k++ % 5 == 2 && bad.size() < 8) bad.push_back(jtext(n)); }, 60); }
        a.texts.insert(a.texts.end(), bad.begin(), bad.end());
        a.texts.push_back("null"); a.texts.push_back("[1,");
        // the same texts filled up to one length: only the contents differ
        std::size_t len = 0, base = a.texts.size();
        for (auto& s : a.texts) if (s.size() <= 200) len = std::max(len, s.size());
        for (std::size_t k = 0; k < base; k += R.thorough() ? 1 : 2) if (a.texts[k].size() < len) a.texts.push_back(a.texts[k] + std::string(len - a.texts[k].size(), ' '));
        Place p;
        p.obj = t->fresh(); p.text.reserve(8192);
        std::vector<std::vector<std::string>> want;
        for (std::size_t i = 0; i < std::max(a.values.size(), a.texts.size()); ++i) {
            R.at(t->name, "first call " + std::to_string(i));
            std::string err;
            want.push_back(alone(*t, a, p, i, err));
            if (!err.empty()) { R.fail(err); return; }
        }
        R.sample(t->name + ": " + std::to_string(a.values.size()) + " values, " + std::to_string(a.texts.size()) + " texts");
        auto name = [&](int f, std::size_t i) { return std::string(NAME[f]) + " of " + (f < NW ? "value " + std::to_string(a.values[i].first) + " level " + std::to_string(a.values[i].second) : show(a.texts[i], 120)); };
        auto step = [&](int f, std::size_t i, const std::string& before) {
            std::string r = one(*t, a, p, f, i);
            R.transitions(1); R.states(1);
            if (r == want[i][std::size_t(f)]) return true;
            R.at(t->name, before + "; " + name(f, i));
            R.fail("the last call gives " + show(r, 500) + " instead of " + show(want[i][std::size_t(f)], 500));
            return false;
        };
        for (int f = 0; f < NF; ++f) for (int g = 0; g < NF; ++g) {
            if (!possible(*t, f) || !possible(*t, g) || (f < NW) != (g < NW)) continue;
            std::size_t every = f == g || R.thorough() ? 1 : 3;
            for (std::size_t i = 0; i < number(a, f); i += every) for (std::size_t j = 0; j < number(a, g); ++j) {
                if (R.stop()) return;
                if (j % 16 == 0) R.at(t->name, name(f, i) + "; " + name(g, j));
                R.count(Run::hash(t->name + "|" + std::to_string(f * NF + g) + "|" + std::to_string(i * 1000 + j))); R.traces(1);
                if (!step(f, i, "earlier pairs") || !step(g, j, name(f, i))) return;
            }
        }
    });
}
