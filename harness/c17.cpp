// C17: concurrent calls give the sequential results under every interleaving.
#include "core.hpp"
#include "ops.hpp"
#include "jv.hpp"
#include "rt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <set>
#include <sys/wait.h>
#include <unistd.h>

// ---- transport between an execution (child process) and the explorer
static void put(std::string& s, const void* p, std::size_t n) { s.append(static_cast<const char*>(p), n); }
template<typename T> static void put(std::string& s, const T& v) { put(s, &v, sizeof v); }
static void put_s(std::string& s, const std::string& t) { put(s, t.size()); s += t; }
template<typename T> static void put_v(std::string& s, const std::vector<T>& v) { put(s, v.size()); put(s, v.data(), v.size() * sizeof(T)); }
struct In {
    const std::string& s; std::size_t i = 0;
    template<typename T> T get() { T v{}; if (i + sizeof v <= s.size()) std::memcpy(&v, s.data() + i, sizeof v); i += sizeof v; return v; }
    std::string str() { auto n = get<std::size_t>(); std::string r = i + n <= s.size() ? s.substr(i, n) : ""; i += n; return r; }
    template<typename T> std::vector<T> vec() { auto n = get<std::size_t>(); std::vector<T> v; if (i + n * sizeof(T) <= s.size()) { v.resize(n); std::memcpy(v.data(), s.data() + i, n * sizeof(T)); } i += n * sizeof(T); return v; }
};
static std::string child(const std::function<std::string()>& f, std::string& err) {
    int p[2];
    if (pipe(p)) { err = "pipe"; return ""; }
    pid_t pid = fork();
    if (pid == 0) {
        ::close(p[0]);
        alarm(20);
        std::string s = f();
        for (std::size_t i = 0; i < s.size();) { ssize_t n = ::write(p[1], s.data() + i, s.size() - i); if (n <= 0) break; i += std::size_t(n); }
        _exit(0);
    }
    ::close(p[1]);
    std::string s; char b[65536]; ssize_t n;
    while ((n = ::read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) s.append(b, std::size_t(n));
    ::close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    err.clear();
    if (!WIFEXITED(st) || WEXITSTATUS(st)) err = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "the calls do not return" : std::string("crash: ") + strsignal(WTERMSIG(st))) : "exit status " + std::to_string(WEXITSTATUS(st));
    return s;
}
static std::vector<std::string>* alone;
using Threads = std::vector<std::vector<std::size_t>>;        // operations of every thread
struct Exec { rt::Outcome o; std::vector<std::string> texts; std::string err; };
static Exec run(const Threads& t, bool warm, const std::vector<std::uint8_t>& prefix, const std::vector<std::uintptr_t>& sp, const std::vector<std::uintptr_t>& ap) {
    Exec e;
    std::string s = child([&] {
        if (warm) for (auto& th : t) for (auto i : th) { Res r; ops()[i].call(r); r.text(); }
        std::vector<std::vector<Res>> res(t.size());
        std::vector<std::function<void()>> bodies;
        for (std::size_t k = 0; k < t.size(); ++k) {
            res[k].resize(t[k].size());
            bodies.push_back([&, k] { for (std::size_t m = 0; m < t[k].size(); ++m) ops()[t[k][m]].call(res[k][m]); });
        }
        rt::Outcome o = rt::execute(bodies, prefix, sp, ap);
        std::string s;
        put_v(s, o.choices);
        for (auto& x : o.sync) put_v(s, x);
        put_v(s, o.races);
        put(s, o.deadlock); put_s(s, o.error); put(s, o.accesses); put(s, o.steps);
        if (!o.deadlock) for (auto& th : res) for (auto& r : th) put_s(s, r.text());
        return s;
    }, e.err);
    In in{s};
    e.o.choices = in.vec<rt::Choice>();
    for (auto& x : e.o.sync) x = in.vec<std::uintptr_t>();
    e.o.races = in.vec<rt::Race>();
    e.o.deadlock = in.get<bool>(); e.o.error = in.str(); e.o.accesses = in.get<std::uint64_t>(); e.o.steps = in.get<std::uint64_t>();
    if (!e.o.deadlock) for (auto& th : t) for (std::size_t m = 0; m < th.size(); ++m) e.texts.push_back(in.str());
    return e;
}
static std::string place(std::uintptr_t pc) {
    char exe[500] = {}; if (readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) return "?";
    char cmd[700]; std::snprintf(cmd, sizeof cmd, "addr2line -Cfpe '%s' 0x%lx 2>/dev/null", exe, (unsigned long)(pc ? pc - 1 : 0));
    std::string r; if (FILE* f = popen(cmd, "r")) { char b[2000]; if (std::fgets(b, sizeof b, f)) r = b; pclose(f); }
    while (!r.empty() && r.back() == '\n') r.pop_back();
    return r.size() > 300 ? r.substr(0, 140) + " ... " + r.substr(r.size() - 140) : r;
}
static std::string describe(const Threads& t) { std::string s; for (auto& th : t) { if (!s.empty()) s += " || "; std::string x; for (auto i : th) x += (x.empty() ? "" : "; ") + ops()[i].name; s += x; } return s; }
static std::string sched(const std::vector<std::uint8_t>& p) { std::string s; for (auto c : p) s += char('0' + c); return "schedule [" + s + "]"; }
static std::string verdict(const Threads& t, const Exec& e) {
    if (!e.err.empty()) return e.err;
    if (!e.o.error.empty()) return e.o.error;
    std::size_t k = 0;
    for (auto& th : t) for (auto i : th) { const std::string& x = e.texts[k++]; if (x != (*alone)[i]) return "the call " + ops()[i].name + " gives " + show(x.substr(0, 500)) + " instead of " + show((*alone)[i].substr(0, 500)); }
    return "";
}
struct Explored { std::uint64_t execs = 0, steps = 0; bool full = true; std::string bad; std::vector<std::uint8_t> how; std::vector<rt::Race> races; };
static Explored explore(Run& R, const Threads& t, bool warm, int bound, std::vector<std::uintptr_t> ap, std::uint64_t cap, bool races_matter) {
    Explored x;
    std::set<std::uintptr_t> shared;
    bool again = true;
    while (again) {
        again = false;
        std::vector<std::uintptr_t> sp(shared.begin(), shared.end());
        struct Job { std::vector<std::uint8_t> p; int used; };
        std::vector<Job> todo{{{}, 0}};
        while (!todo.empty()) {
            Job j = std::move(todo.back()); todo.pop_back();
            if (x.execs >= cap) { x.full = false; return x; }
            Exec e = run(t, warm, j.p, sp, ap);
            ++x.execs; x.steps += e.o.steps + e.o.choices.size();
            R.eval(1); R.transitions(e.o.steps + e.o.choices.size());
            std::string v = verdict(t, e);
            if (!v.empty()) { x.bad = v; x.how = j.p; return x; }
            if (races_matter && !e.o.races.empty()) { x.races = e.o.races; x.how = j.p; return x; }
            // synchronisation objects used by more than one thread are scheduling points
            std::set<std::uintptr_t> seen, both;
            for (auto& s : e.o.sync) for (auto a : std::set<std::uintptr_t>(s.begin(), s.end())) if (!seen.insert(a).second) both.insert(a);
            for (auto a : both) if (shared.insert(a).second) again = true;
            if (again) break;
            for (std::size_t i = j.p.size(); i < e.o.choices.size(); ++i) for (int c = 1; c < e.o.choices[i].n; ++c) {
                int used = j.used + (e.o.choices[i].preempt ? 1 : 0);
                if (used > bound) continue;
                Job n; n.p = j.p; n.p.resize(i, 0); n.p.push_back(std::uint8_t(c)); n.used = used;
                todo.push_back(std::move(n));
            }
        }
    }
    R.states(x.execs);
    return x;
}
static void decide(Run& R, const Threads& t, bool warm, int bound) {
    std::string name = describe(t) + (warm ? " (warm)" : " (cold)");
    R.at(name);
    Explored x = explore(R, t, warm, bound, {}, 20000, true);
    if (getenv("C17_LOG")) std::fprintf(stderr, "%lu %lu %s\n", (unsigned long)x.execs, (unsigned long)x.steps, name.c_str());
    R.count(Run::hash(name)); R.traces(x.execs); R.extra(x.execs > 2 ? 0 : 1, 1); if (!x.full) R.extra(2, 1);
    if (!x.bad.empty()) { R.fail(x.bad + "; " + sched(x.how)); return; }
    if (x.races.empty()) return;
    // unsynchronised accesses: look for an interleaving of them with a wrong outcome
    auto& r = x.races[0];
    std::string d = "data race (two calls access the same memory without synchronisation, one of them writing it): " + place(r.pc2) + (r.pc1 ? " and " + place(r.pc1) : "");
    std::vector<std::uintptr_t> ap;
    for (auto& q : x.races) ap.push_back(q.addr & ~std::uintptr_t(7));
    std::sort(ap.begin(), ap.end()); ap.erase(std::unique(ap.begin(), ap.end()), ap.end());
    for (int b = 1; b <= 2; ++b) { Explored y = explore(R, t, warm, b, ap, 1500, false); if (!y.bad.empty()) { R.fail(d + "; under " + sched(y.how).substr(0, 300) + ": " + y.bad); return; } }
    R.fail(d);
}
void define(Run& R) {
    rt::setup();
    R.extra_names = { "combinations_with_shared_synchronisation", "combinations_without_interaction", "combinations_cut_off" };
    const std::size_t N = ops().size();
    alone = new std::vector<std::string>(N);
    for (std::size_t i = 0; i < N; ++i) { std::string err; (*alone)[i] = child([i] { Res r; ops()[i].call(r); return r.text(); }, err); if (!err.empty()) (*alone)[i] = err; }
    std::vector<std::size_t> core;
    for (std::size_t i = 0; i < N; ++i) if (ops()[i].core) core.push_back(i);
    R.sample(std::to_string(N) + " operations, all pairs; " + std::to_string(core.size()) + " in the core set, all triples");
    for (std::size_t a = 0; a < N; ++a) {
        R.unit("pairs with " + ops()[a].name, [&R, a, N] {
            for (std::size_t b = a; b < N && !R.stop(); ++b) {
                if (!R.thorough() && !combined(ops(), a, b)) continue;
                decide(R, {{a}, {b}}, false, R.thorough() ? 3 : 2);
                if (!R.stop() && (R.thorough() || ops()[a].core || a == b)) decide(R, {{a}, {b}}, true, 2);
            }
        });
        if (ops()[a].core || R.thorough()) R.unit("two calls per thread, first " + ops()[a].name, [&R, a, core] {
            for (auto b : core) for (auto c : core) { if (R.stop()) return; if (R.thorough() || (b == a || b == c)) decide(R, {{a, b}, {c}}, false, 2); }
        });
        if (ops()[a].core) R.unit("three threads, first " + ops()[a].name, [&R, a, core] {
            for (auto b : core) for (auto c : core) { if (R.stop()) return; if (b >= a && c >= b && (R.thorough() || a == b || b == c)) decide(R, {{a}, {b}, {c}}, false, R.thorough() ? 2 : 1); }
        });
    }
}
