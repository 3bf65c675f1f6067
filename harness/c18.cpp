// C18: the outcome of a call depends on its arguments only.
#include "core.hpp"
#include "ops.hpp"
#include "jv.hpp"
#include <cerrno>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <locale>
#include <malloc.h>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string all_input(int fd) { std::string s; char b[65536]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) s.append(b, std::size_t(n)); return s; }
// runs f in a child of this process, which has made no call of the library; returns what it reported
static std::string in_child(const std::function<std::string()>& f) {
    int p[2];
    if (pipe(p)) return "pipe";
    pid_t pid = fork();
    if (pid == 0) {
        ::close(p[0]);
        alarm(30);
        std::string s = "R" + f();
        for (std::size_t i = 0; i < s.size();) { ssize_t n = ::write(p[1], s.data() + i, s.size() - i); if (n <= 0) break; i += std::size_t(n); }
        _exit(0);
    }
    ::close(p[1]);
    std::string s = all_input(p[0]);
    ::close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || s.empty()) return "crash (" + (WIFSIGNALED(st) ? std::string(strsignal(WTERMSIG(st))) : "exit status " + std::to_string(WEXITSTATUS(st))) + ")";
    return s.substr(1);
}
static std::string run_op(std::size_t i) {
    Res r;
    ops()[i].call(r);
    return r.text();
}
#ifdef STATIC_INIT
// every operation as the very first thing the program does, before any other object of the program is constructed
static std::vector<std::string>* early;
struct Early { Early() { early = new std::vector<std::string>; for (std::size_t i = 0; i < ops().size(); ++i) early->push_back(in_child([i] { return run_op(i); })); } };
static Early the_early __attribute__((init_priority(101)));
#endif

static std::vector<std::string>* fresh;      // outcome of every operation as the first call of a process
static std::vector<std::string>* inputs;
static std::string history(const std::vector<std::size_t>& h) { std::string s; for (auto i : h) s += (s.empty() ? "" : "; ") + ops()[i].name; return s; }
// runs a history; reports the first outcome that differs from the one in a fresh process
static std::string play(const std::vector<std::size_t>& h) {
    std::vector<Res> rs(h.size());
    for (std::size_t k = 0; k < h.size(); ++k) { errno = 0; ops()[h[k]].call(rs[k]); }
    // results are looked at after all calls: a later call must not change what an earlier one returned
    for (std::size_t k = 0; k < h.size(); ++k) {
        std::string t = rs[k].text();
        if (t != (*fresh)[h[k]]) return "call " + std::to_string(k + 1) + " (" + ops()[h[k]].name + ") of the history gives " + show(t.substr(0, 600)) + " instead of " + show((*fresh)[h[k]].substr(0, 600));
    }
    for (auto i : h) if (ops()[i].inputs() != (*inputs)[i]) return "the input of " + ops()[i].name + " was modified: " + show(ops()[i].inputs().substr(0, 600));
    return "";
}
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; } };
__attribute__((noinline)) static void soil_stack(int v) { volatile char a[60000]; for (std::size_t i = 0; i < sizeof a; ++i) a[i] = char(v); }

void define(Run& R) {
    const std::size_t N = ops().size();
#ifdef STATIC_INIT
    R.unit("calls during static initialisation", [&R, N] {
        for (std::size_t i = 0; i < N; ++i) {
            R.at(ops()[i].name);
            std::string now = in_child([i] { return run_op(i); });
            R.count(Run::hash(ops()[i].name)); R.states(1); R.transitions(2); R.traces(1);
            if ((*early)[i] != now) R.fail("during static initialisation: " + show((*early)[i].substr(0, 600)) + ", in main: " + show(now.substr(0, 600)));
        }
    });
#else
    fresh = new std::vector<std::string>(N); inputs = new std::vector<std::string>(N);
    for (std::size_t i = 0; i < N; ++i) { (*inputs)[i] = ops()[i].inputs(); (*fresh)[i] = in_child([i] { return run_op(i); }); }
    std::vector<std::size_t> core;
    for (std::size_t i = 0; i < N; ++i) if (ops()[i].core) core.push_back(i);
    R.sample(std::to_string(N) + " operations, " + std::to_string(core.size()) + " in the core set");
    for (std::size_t i = 0; i < N; ++i) if (i < 6) R.sample(ops()[i].name + ": " + (*fresh)[i]);
    for (std::size_t i = 0; i < N; ++i) if ((*fresh)[i].rfind("crash", 0) == 0) R.unit("crash " + ops()[i].name, [&R, i] { R.fail_at(ops()[i].name, "the call crashes: " + (*fresh)[i]); });
    auto check = [&R](const std::vector<std::size_t>& h) {
        R.at(history(h));
        std::string e = in_child([&] { return play(h); });
        R.count(Run::hash(history(h))); R.states(h.size() + 1); R.transitions(h.size()); R.traces(1);
        if (!e.empty()) R.fail(e);
    };
    R.unit("ambient state", [&R, N] {
        for (std::size_t i = 0; i < N; ++i) for (int k = 0; k < 10; ++k) {
            static const char* W[] = { "errno set", "heap filled with 0x00", "heap filled with 0xff", "stack filled with 0xff", "TZ=EST5EDT", "TZ=<+1345>-13:45", "C++ locale with other punctuation", "errno ERANGE", "stack filled with 0x01", "C.UTF-8 locale" };
            if (R.stop()) return;
            R.at(ops()[i].name, W[k]);
            std::string t = in_child([i, k] {
                switch (k) {
                case 0: errno = EINVAL; break;
                case 1: mallopt(M_PERTURB, 0xff); break;
                case 2: mallopt(M_PERTURB, 0x01); break;
                case 3: soil_stack(0xff); break;
                case 4: setenv("TZ", "EST5EDT", 1); tzset(); break;
                case 5: setenv("TZ", "<+1345>-13:45", 1); tzset(); break;
                case 6: std::locale::global(std::locale(std::locale::classic(), new Punct)); break;
                case 7: errno = ERANGE; break;
                case 8: soil_stack(1); break;
                case 9: setlocale(LC_ALL, "C.UTF-8"); break;
                }
                return run_op(i);
            });
            R.count(Run::hash(ops()[i].name) + std::uint64_t(k)); R.states(1); R.transitions(1); R.traces(1);
            if (t != (*fresh)[i]) R.fail("outcome " + show(t.substr(0, 600)) + " instead of " + show((*fresh)[i].substr(0, 600)));
        }
    });
    for (std::size_t a = 0; a < N; ++a) {
        R.unit("histories starting with " + ops()[a].name, [&R, a, N, core, check] {
            check(std::vector<std::size_t>(300, a));
            for (std::size_t b = 0; b < N && !R.stop(); ++b) {
                check({a, b});
                check({b, a, b, a, b, a, a, b, b, a});
                if (R.thorough()) for (std::size_t c = 0; c < N && !R.stop(); ++c) check({a, b, c});
            }
            bool ac = ops()[a].core;
            if (ac) for (auto b : core) for (auto c : core) { if (R.stop()) return; check({a, b, c}); if (R.thorough()) for (auto d : core) { if (R.stop()) return; check({a, b, c, d}); } }
        });
        // all triples in one long history
        if (!R.thorough()) R.unit("one history with all triples starting with " + ops()[a].name, [&R, a, N] {
            std::string e;
            for (std::size_t b = 0; b < N && e.empty(); ++b) {
                if (!combined(ops(), a, b)) continue;
                R.at(ops()[a].name + "; " + ops()[b].name + "; every operation");
                e = in_child([&] { for (std::size_t c = 0; c < N; ++c) { std::string x = play({a, b, c}); if (!x.empty()) return history({a, b, c}) + " after similar triples: " + x; } return std::string(); });
                R.eval(N); R.transitions(3 * N); R.states(3 * N); R.traces(1);
                if (!e.empty()) R.fail(e);
            }
        });
    }
#endif
}
