#include "core.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define HAS_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAS_ASAN 1
#endif
#endif

Run* RUN = nullptr;
static constexpr int MAXW = 64;
static constexpr std::size_t CASE = 6000;

namespace {
struct Slot {
    std::atomic<std::uint64_t> beat;
    std::atomic<std::int64_t> unit;
    char kase[CASE];
};
struct Shared {
    std::atomic<std::uint64_t> next, evals, distinct, states, transitions, traces, extra[16], samples, violations;
    std::atomic<std::uint64_t> unit_fail[65536];
    Slot slot[MAXW];
};
Shared* S;
std::string outdir;
std::uint64_t pending_evals = 0;
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}
void append(const std::string& file, const std::string& line) {
    int fd = ::open((outdir + "/" + file).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd < 0) return;
    std::string l = line + "\n";
    if (::write(fd, l.data(), l.size()) < 0) {}
    ::close(fd);
}
void violation(const std::string& unit, const std::string& kase, const std::string& detail) {
    S->violations++;
    append("violations.jsonl", "{\"unit\":\"" + esc(unit) + "\",\"case\":\"" + esc(kase) + "\",\"detail\":\"" + esc(detail) + "\"}");
}
}

void Run::at(const std::string& k) {
    Slot& s = S->slot[worker];
    std::size_t n = k.size() < CASE - 1 ? k.size() : CASE - 1;
    std::memcpy(s.kase, k.data(), n);
    s.kase[n] = 0;
    s.beat.fetch_add(1, std::memory_order_relaxed);
}
void Run::count(std::uint64_t h, bool nontrivial) {
    eval();
    if (nontrivial) { seen.insert(h); if (seen.size() > 2000000) flush_seen(); }
}
void Run::eval(std::uint64_t n) {
    pending_evals += n;
    if (pending_evals >= 1024) { S->evals += pending_evals; pending_evals = 0; S->slot[worker].beat++; }
}
void Run::flush_seen() { S->distinct += seen.size(); seen.clear(); S->evals += pending_evals; pending_evals = 0; }
void Run::states(std::uint64_t n) { S->states += n; }
void Run::transitions(std::uint64_t n) { S->transitions += n; S->slot[worker].beat++; }
void Run::traces(std::uint64_t n) { S->traces += n; }
void Run::extra(int i, std::uint64_t n) { S->extra[i] += n; }
void Run::sample(const std::string& s) { if (S->samples.fetch_add(1) < 12) append("samples.jsonl", "\"" + esc(s.substr(0, 500)) + "\""); }
static bool only_crash = false;      // used where only memory errors matter: functional deviations belong to other properties
void Run::fail(const std::string& detail) {
    if (only_crash) return;
    ++fails_in_unit;
    S->unit_fail[current]++;
    if (fails_in_unit <= 5) violation(units[current].name, S->slot[worker].kase, detail);
}
bool Run::stop() const { return fails_in_unit >= 5; }

void Run::run_unit(std::size_t i) {
    current = i;
    fails_in_unit = 0;
    S->slot[worker].unit = std::int64_t(i);
    at("(start of unit)");
    try { units[i].body(); }
    catch (const std::exception& e) { fail(std::string("unexpected exception reached the driver: ") + e.what()); }
    catch (...) { fail("unexpected exception of unknown type reached the driver"); }
    flush_seen();
    S->slot[worker].unit = -1;
}

void Run::worker_loop() {
    for (;;) {
        std::size_t i = S->next++;
        if (i >= units.size()) break;
        run_unit(i);
    }
    flush_seen();
}

static void child_setup(int w) {
    std::string err = outdir + "/stderr." + std::to_string(w);
    int fd = ::open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { ::dup2(fd, 2); ::dup2(fd, 1); ::close(fd); }
    rlimit c{0, 0};
    setrlimit(RLIMIT_CORE, &c);
#ifndef HAS_ASAN
    rlimit m{6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &m);
#endif
}

// 0: completes, 1: crashes, 2: hangs
int Run::confirm(std::size_t i, double timeout) {
    pid_t p = fork();
    if (p == 0) { worker = MAXW - 1; child_setup(worker); run_unit(i); _exit(0); }
    double t0 = now(), tb = t0;
    std::uint64_t beat = S->slot[MAXW - 1].beat;
    for (;;) {
        int st;
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) return (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? 0 : 1;
        std::uint64_t b = S->slot[MAXW - 1].beat;
        if (b != beat) { beat = b; tb = now(); }
        if (now() - tb > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); return 2; }
        usleep(20000);
    }
}

int Run::main(int ac, char** av, std::function<void(Run&)> define) {
    argc = ac; argv = av;
    RUN = this;
    std::string only;
    int nw = 8;
    bool list = false;
    double budget = 0, stop_early = 0, first_violation = 0;
    outdir = ".";
    for (int i = 1; i < ac; ++i) {
        std::string a = av[i];
        if (a == "--tier" && i + 1 < ac) tier = av[++i];
        else if (a == "--out" && i + 1 < ac) outdir = av[++i];
        else if (a == "--workers" && i + 1 < ac) nw = std::atoi(av[++i]);
        else if (a == "--unit" && i + 1 < ac) only = av[++i];
        else if (a == "--budget" && i + 1 < ac) budget = std::atof(av[++i]);
        else if (a == "--stop-early" && i + 1 < ac) stop_early = std::atof(av[++i]);
        else if (a == "--list") list = true;
        else if (a == "--only-crash") only_crash = true;
    }
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (S == MAP_FAILED) { perror("mmap"); return 3; }
    double t0 = now();
    worker = MAXW - 1;
    define(*this);
    if (list) { for (auto& u : units) std::printf("%s\n", u.name.c_str()); return 0; }
    if (!only.empty()) {
        std::vector<Unit> k;
        for (auto& u : units) if (u.name == only) k.push_back(u);
        units = k;
        if (units.empty()) { std::fprintf(stderr, "no such unit: %s\n", only.c_str()); return 3; }
    }
    if (units.size() > 65536) { std::fprintf(stderr, "too many units\n"); return 3; }
    if (nw > MAXW - 2) nw = MAXW - 2;
    if (std::size_t(nw) > units.size()) nw = int(units.size());
    std::vector<pid_t> pid(nw, 0);
    std::vector<std::uint64_t> beat(nw, 0);
    std::vector<double> tb(nw, now());
    std::fflush(nullptr);
    auto spawn = [&](int w) {
        pid_t p = fork();
        if (p == 0) { worker = w; child_setup(w); S->slot[w].unit = -1; worker_loop(); _exit(0); }
        pid[w] = p; tb[w] = now(); beat[w] = S->slot[w].beat;
    };
    for (int w = 0; w < nw; ++w) spawn(w);
    int live = nw, crashes = 0;
    auto tail = [&](int w) {
        std::ifstream f(outdir + "/stderr." + std::to_string(w));
        std::string s((std::istreambuf_iterator<char>(f)), {});
        return s.size() > 3000 ? s.substr(0, 3000) : s;
    };
    auto incident = [&](int w, const std::string& what, double timeout) {
        std::int64_t u = S->slot[w].unit;
        std::string kase = S->slot[w].kase, err = tail(w);
        if (u < 0) { std::fprintf(stderr, "worker died outside of a unit: %s\n%s\n", what.c_str(), err.c_str()); return false; }
        int c = crashes < 10 ? confirm(std::size_t(u), timeout) : 1;
        if (c == 0) { std::fprintf(stderr, "unit %s: %s did not reproduce\n", units[u].name.c_str(), what.c_str()); return false; }
        std::string k2 = crashes < 10 ? std::string(S->slot[MAXW - 1].kase) : kase;
        if (crashes < 10) err = tail(MAXW - 1);
        ++crashes;
        violation(units[u].name, k2, (c == 1 ? "crash of the code under test (" + what + ")" : "call does not return (hang)") + (err.empty() ? "" : "\n" + err));
        return true;
    };
    bool broken = false, hung = false, out_of_time = false;
    while (live > 0) {
        if (hung) {   // one confirmed hang decides; do not spend the time limit on further ones
            for (int w = 0; w < nw; ++w) if (pid[w]) { int st; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; }
            break;
        }
        if (S->violations && !first_violation) first_violation = now();
        // time used up, or a violation is decided and the others would only repeat it
        if ((budget > 0 && now() - t0 > budget) || (stop_early > 0 && first_violation > 0 && now() - first_violation > stop_early)) {
            for (int w = 0; w < nw; ++w) if (pid[w]) { int st; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; }
            out_of_time = true;
            break;
        }
        usleep(20000);
        for (int w = 0; w < nw; ++w) {
            if (!pid[w]) continue;
            int st;
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            if (r == pid[w]) {
                pid[w] = 0; --live;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                std::string what = WIFSIGNALED(st) ? std::string("signal ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
                if (S->slot[w].unit < 0) { broken = true; continue; }
                incident(w, what, case_timeout * 2);
                if (crashes < 60) { spawn(w); ++live; }
                continue;
            }
            std::uint64_t b = S->slot[w].beat;
            if (b != beat[w]) { beat[w] = b; tb[w] = now(); }
            else if (now() - tb[w] > case_timeout) {
                kill(pid[w], SIGKILL);
                waitpid(pid[w], &st, 0);
                pid[w] = 0; --live;
                hung = incident(w, "hang", case_timeout * 2);   // a unit that completes on its own is not a hang
                if (!hung && crashes < 60) { spawn(w); ++live; }
            }
        }
    }
    bool all = S->next >= units.size() && !hung && !out_of_time;
    std::size_t begun = std::min<std::size_t>(S->next, units.size()), done = out_of_time && begun > std::size_t(nw) ? begun - std::size_t(nw) : begun;
    std::ofstream f(outdir + "/coverage.json");
    f << "{\"units\":" << units.size() << ",\"units_done\":" << done << ",\"evaluations\":" << S->evals << ",\"distinct\":" << S->distinct << ",\"states\":" << S->states
      << ",\"transitions\":" << S->transitions << ",\"traces\":" << S->traces << ",\"violations\":" << S->violations << ",\"complete\":" << (all && !broken ? "true" : "false")
      << ",\"seconds\":" << now() - t0 << ",\"extra\":{";
    for (std::size_t i = 0; i < extra_names.size(); ++i) f << (i ? "," : "") << "\"" << esc(extra_names[i]) << "\":" << S->extra[i];
    f << "}}\n";
    if (S->violations) return 1;
    return broken || (!all && !out_of_time) ? 3 : 0;
}
