// C15: a fault at any point of a call.
#include "core.hpp"
#include "c15.hpp"
#include "ops.hpp"
#include "jv.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#define ALLOCATED __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef ALLOCATED
#include <malloc.h>
#define ALLOCATED (mallinfo2().uordblks)
#endif
namespace fault {
thread_local std::int64_t countdown_new = -1, countdown_user = -1;
thread_local std::uint64_t seen_new = 0, seen_user = 0;
std::int64_t live_user = 0;
void user_point() { if (!ops_active) return; ++seen_user; if (countdown_user >= 0 && countdown_user-- == 0) throw UserFault(); }
static void new_point() { if (!ops_active) return; ++seen_new; if (countdown_new >= 0 && countdown_new-- == 0) throw std::bad_alloc(); }
static void* get(std::size_t n) { new_point(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void* get(std::size_t n, std::align_val_t a) { new_point(); void* p = nullptr; if (posix_memalign(&p, std::size_t(a) < 8 ? 8 : std::size_t(a), n ? n : 1)) throw std::bad_alloc(); return p; }
}
void* operator new(std::size_t n) { return fault::get(n); }
void* operator new[](std::size_t n) { return fault::get(n); }
void* operator new(std::size_t n, std::align_val_t a) { return fault::get(n, a); }
void* operator new[](std::size_t n, std::align_val_t a) { return fault::get(n, a); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return fault::get(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return fault::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }

void ops_bomb(std::vector<Op>& L);
static const std::vector<Op>& all() { static const std::vector<Op>* l = [] { auto* x = new std::vector<Op>(ops()); ops_bomb(*x); return x; }(); return *l; }

// one call with the k-th event of the kind failing; the outcome, and what is left behind
struct Left { std::int64_t bytes, users; };
static std::string once(const Op& op, int kind, std::int64_t k, bool& injected, Left& left) {
    std::string t;
    std::int64_t b0, u0 = fault::live_user;
    b0 = std::int64_t(ALLOCATED);
    {
        Res r;
        fault::countdown_new = kind == 0 ? k : -1;
        fault::countdown_user = kind == 1 ? k : -1;
        fault::seen_new = fault::seen_user = 0;
        op.call(r);
        injected = k >= 0 && (kind == 0 ? fault::countdown_new : fault::countdown_user) < 0;
        fault::countdown_new = fault::countdown_user = -1;
        t = r.text();
    }

    left.users = fault::live_user - u0;
    static char buf[1 << 17];        // the text is kept off the heap while the balance is drawn
    std::size_t n = std::min(t.size(), sizeof buf);
    std::memcpy(buf, t.data(), n);
    std::string().swap(t);
    left.bytes = std::int64_t(ALLOCATED) - b0;
    return std::string(buf, n);
}
static std::string judge(const Op& op, int kind, std::int64_t k, const std::string& normal, const std::string& in, bool& injected) {
    Left l{};
    std::string t = once(op, kind, k, injected, l);
    if (!injected && t != normal) return "without a fault the call gives " + show(t.substr(0, 400)) + " instead of " + show(normal.substr(0, 400));
    const char* want = kind == 0 ? "bad_alloc" : "unknown exception";
    if (injected && t != normal && t.substr(0, t.find(" => ")) != want && t.rfind("false", 0) != 0) return "the fault is reported as " + show(t.substr(0, 400)) + " (normal outcome " + show(normal.substr(0, 400)) + ")";
    if (t.rfind("false => ", 0) == 0 && t != "false => untouched" && t != normal) return "a failed call modifies its target: " + show(t.substr(0, 400));
    if (l.users) return std::to_string(l.users) + " user objects left alive (negative: destroyed twice)";
    // memory may be retained once (a table that is built on first use), but not on every call
    for (int again = 0; again < 2; ++again) { if (l.bytes == 0) break; std::string t2 = once(op, kind, k, injected, l); if (t2 != t) return "repeating the faulted call gives " + show(t2.substr(0, 400)) + " instead of " + show(t.substr(0, 400)); if (l.users) return "user objects left alive"; }
    if (l.bytes != 0) return "the call leaks " + std::to_string(l.bytes) + " bytes each time";
    bool inj = false; Left l2{};
    std::string t3 = once(op, kind, -1, inj, l2);
    if (t3 != normal) return "the next call without a fault gives " + show(t3.substr(0, 400)) + " instead of " + show(normal.substr(0, 400));
    if (op.inputs() != in) return "the source is modified: " + show(op.inputs().substr(0, 400));
    return "";
}
static std::string cold(const Op& op, int kind, std::int64_t k, const std::string& normal, const std::string& in) {
    int p[2]; if (pipe(p)) return "pipe";
    pid_t pid = fork();
    if (pid == 0) { ::close(p[0]); alarm(60); bool inj; std::string s = judge(op, kind, k, normal, in, inj); if (!s.empty() && ::write(p[1], s.data(), std::min<std::size_t>(s.size(), 4000)) < 0) {} _exit(0); }
    ::close(p[1]);
    std::string s; char b[4096]; ssize_t n; while ((n = ::read(p[0], b, sizeof b)) > 0) s.append(b, std::size_t(n));
    ::close(p[0]);
    int st; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) return "crash in a fresh process, " + (WIFSIGNALED(st) ? std::string(strsignal(WTERMSIG(st))) : "exit status " + std::to_string(WEXITSTATUS(st)));
    return s;
}
void define(Run& R) {
    R.extra_names = { "allocations_failed", "user_constructors_failed", "faults_in_fresh_processes", "fault_pairs" };
    for (std::size_t i = 0; i < all().size(); ++i) R.unit(all()[i].name, [&R, i] {
        const Op& op = all()[i];
        std::string in = op.inputs(), normal;
        // the normal outcome, and the number of events, from a process of its own: this one stays cold
        std::uint64_t n[2] = {};
        {
            int p[2]; if (pipe(p)) return;
            pid_t pid = fork();
            if (pid == 0) { ::close(p[0]); bool inj; Left l; std::string s = once(op, 0, -1, inj, l); std::uint64_t c[2] = { fault::seen_new, fault::seen_user }; if (::write(p[1], c, sizeof c) < 0 || ::write(p[1], s.data(), s.size()) < 0) _exit(1); _exit(0); }
            ::close(p[1]);
            std::string s; char b[4096]; ssize_t m; while ((m = ::read(p[0], b, sizeof b)) > 0) s.append(b, std::size_t(m));
            ::close(p[0]); int st; waitpid(pid, &st, 0);
            if (s.size() < 16) { R.fail_at("unfaulted", "the call crashes"); return; }
            std::memcpy(n, s.data(), 16); normal = s.substr(16);
        }
        if (i % 9 == 0) R.sample(op.name + ": " + std::to_string(n[0]) + " allocations, " + std::to_string(n[1]) + " user constructors; " + normal.substr(0, 100));
        for (int kind = 0; kind < 2; ++kind) {
            const char* K = kind == 0 ? "allocation " : "user constructor or assignment ";
            for (std::uint64_t k = 0; k < n[kind] && k < (R.thorough() ? 100000u : 24u); ++k) {
                if (R.stop()) return;
                R.at(op.name, std::string(K) + std::to_string(k + 1) + " of " + std::to_string(n[kind]) + " fails, first call of the process");
                std::string e = cold(op, kind, std::int64_t(k), normal, in);
                R.count(Run::hash(op.name) * 31 + k * 4 + std::uint64_t(kind)); R.transitions(1); R.extra(2, 1);
                if (!e.empty()) R.fail(e);
            }
        }
        for (int kind = 0; kind < 2; ++kind) for (std::int64_t k = 0; k < 1000000; ++k) {
            if (R.stop()) return;
            R.at(op.name, std::string(kind == 0 ? "allocation " : "user constructor or assignment ") + std::to_string(k + 1) + " fails");
            bool injected = false;
            std::string e = judge(op, kind, k, normal, in, injected);
            R.count(Run::hash(op.name) * 31 + std::uint64_t(k) * 4 + std::uint64_t(kind) + 2); R.states(1); R.transitions(3); R.traces(1);
            if (!e.empty()) R.fail(e);
            if (!injected) break;
            R.extra(kind, 1);
        }
        // two faults one after the other: whatever the first leaves behind must not matter to the second
        std::uint64_t lim = R.thorough() ? 60 : 8;
        for (std::uint64_t a = 0; a < n[0] && a < lim; ++a) for (int kind = 0; kind < 2; ++kind) for (std::uint64_t c = 0; c < n[kind] && c < lim; ++c) {
            if (R.stop()) return;
            R.at(op.name, "allocation " + std::to_string(a + 1) + " fails, then on the next call event " + std::to_string(c + 1));
            bool inj; Left l;
            once(op, 0, std::int64_t(a), inj, l);
            std::string e = judge(op, kind, std::int64_t(c), normal, in, inj);
            R.eval(1); R.extra(3, 1); R.transitions(4); R.traces(1);
            if (!e.empty()) R.fail(e);
        }
    });
}
