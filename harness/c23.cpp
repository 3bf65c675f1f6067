// C23: explicit exploration of all operation sequences on the polymorphic stack against a list model.
#include "core.hpp"
#include "jv.hpp"
#include <cstddef>
#include <cstdint>
#include <functional>
#include <cstring>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <persistence/detail/polymorphic_stack.hpp>

struct Log { std::vector<int> destroyed; int next = 1; bool corrupt = false; std::vector<int> constructed; };
static Log* LOG;
struct Thrown {};

struct SBase {
    virtual ~SBase() {}
    virtual int id() const = 0;
    virtual bool intact() const = 0;
    virtual const void* begin() const = 0;
    virtual std::size_t size() const = 0;
    virtual std::size_t align() const = 0;
};
static unsigned char pat(int id, std::size_t i) { return static_cast<unsigned char>(id * 37 + int(i) * 11 + 5); }
template<std::size_t Size, std::size_t Align> struct alignas(Align) Obj : SBase {
    int n; unsigned char data[Size];
    explicit Obj(int id) : n(id) { for (std::size_t i = 0; i < Size; ++i) data[i] = pat(id, i); LOG->constructed.push_back(id); }
    ~Obj() override { if (!intact()) LOG->corrupt = true; LOG->destroyed.push_back(n); for (auto& x : data) x = 0; n = -1; }
    int id() const override { return n; }
    bool intact() const override { if (n < 1) return false; for (std::size_t i = 0; i < Size; ++i) if (data[i] != pat(n, i)) return false; return true; }
    const void* begin() const override { return this; }
    std::size_t size() const override { return sizeof(Obj); }
    std::size_t align() const override { return alignof(Obj); }
};
struct Other { virtual ~Other() {} long x[3] = { 1, 2, 3 }; };
template<std::size_t Size> struct Second : Other, SBase {      // the base class is not at the start of the object
    int n; unsigned char data[Size];
    explicit Second(int id) : n(id) { for (std::size_t i = 0; i < Size; ++i) data[i] = pat(id, i); LOG->constructed.push_back(id); }
    ~Second() override { if (!intact()) LOG->corrupt = true; LOG->destroyed.push_back(n); n = -1; x[0] = 0; }
    int id() const override { return n; }
    bool intact() const override { if (n < 1 || x[0] != 1 || x[1] != 2 || x[2] != 3) return false; for (std::size_t i = 0; i < Size; ++i) if (data[i] != pat(n, i)) return false; return true; }
    const void* begin() const override { return static_cast<const void*>(static_cast<const Other*>(this)); }
    std::size_t size() const override { return sizeof(Second); }
    std::size_t align() const override { return alignof(Second); }
};
struct Late : Obj<24, 8> {        // base parts are built and destroyed, the object never comes to exist
    explicit Late(int id) : Obj<24, 8>(id) { std::memset(data, 0x77, sizeof data); for (std::size_t i = 0; i < 24; ++i) data[i] = pat(id, i); throw Thrown(); }
};
struct Early : SBase {
    unsigned char junk[40];
    explicit Early(int) { std::memset(junk, 0xEE, sizeof junk); throw Thrown(); }
    ~Early() override { LOG->corrupt = true; }
    int id() const override { return -1; }
    bool intact() const override { return false; }
    const void* begin() const override { return this; }
    std::size_t size() const override { return sizeof(Early); }
    std::size_t align() const override { return alignof(Early); }
};
enum { OP_POP = 0, OP_S, OP_M, OP_L, OP_A16, OP_A64, OP_2ND, OP_LATE, OP_EARLY, OP_HUGE, OPS };
static const char* NAMES[] = { "pop", "push small", "push medium", "push large", "push align16", "push align64", "push second-base", "push throwing late", "push throwing early", "push huge" };
using T1 = Obj<1, 8>; using T2 = Obj<20, 8>; using T3 = Obj<72, 8>; using T4 = Obj<16, 16>; using T5 = Obj<8, 64>; using T6 = Second<8>; using T9 = Obj<600, 8>;

template<std::size_t Cap, std::size_t Mem> struct Exec {
    using Stack = persistence::detail::PolymorphicStack<SBase, Cap, Mem>;
    Run& R;
    struct Live { SBase* p; int id; const char* beg; std::size_t size, align; };
    // runs one sequence, checking the model after each step; false when a violation was reported
    // (the stack is destroyed normally, or by an exception that passes through its scope)
    bool run(const std::vector<int>& ops, std::size_t offset, std::set<std::string>* states, bool unwind = false) {
        Log log; LOG = &log;
        alignas(128) static thread_local unsigned char buf[sizeof(Stack) + 256];
        std::memset(buf, 0xA5, sizeof buf);
        std::size_t al = alignof(Stack);
        Stack* st = new (buf + offset / al * al) Stack;
        std::vector<Live> live;
        std::set<int> gone;
        int id = 0;
        auto bad = [&](const std::string& what) { std::string s; for (int o : ops) s += std::string(NAMES[o]) + "; "; R.fail_at("capacity " + std::to_string(Cap) + " memory " + std::to_string(Mem) + " offset " + std::to_string(offset) + (unwind ? ", destroyed by an exception: " : ": ") + s, what); return false; };
        for (std::size_t step = 0; step < ops.size(); ++step) {
            int op = ops[step];
            std::size_t before = log.destroyed.size();
            R.transitions(1);
            std::string where = "step " + std::to_string(step + 1) + " (" + NAMES[op] + "): ";
            if (op == OP_POP) {
                bool threw = false;
                try { st->pop(); } catch (const std::out_of_range&) { threw = true; } catch (...) { return bad(where + "another exception"); }
                if (threw != live.empty()) return bad(where + (threw ? "throws although not empty" : "no exception although empty"));
                if (!threw) {
                    if (log.destroyed.size() != before + 1 || log.destroyed.back() != live.back().id) return bad(where + "did not destroy exactly the most recent object");
                    live.pop_back();
                } else if (log.destroyed.size() != before) return bad(where + "destroyed an object");
            } else {
                ++id;
                std::size_t need = 0, sz = 0, a = 0; bool throwing = false;
                SBase* p = nullptr;
                int res = 0;   // 0 ok, 1 out_of_range, 2 constructor exception
                auto push = [&](auto* tag, bool th) {
                    using C = std::remove_pointer_t<decltype(tag)>;
                    sz = sizeof(C); a = alignof(C); throwing = th;
                    try { p = &st->template emplace<C>(id); } catch (const std::out_of_range&) { res = 1; } catch (const Thrown&) { res = 2; } catch (...) { res = 3; }
                };
                switch (op) {
                case OP_S: push(static_cast<T1*>(nullptr), false); break;
                case OP_M: push(static_cast<T2*>(nullptr), false); break;
                case OP_L: push(static_cast<T3*>(nullptr), false); break;
                case OP_A16: push(static_cast<T4*>(nullptr), false); break;
                case OP_A64: push(static_cast<T5*>(nullptr), false); break;
                case OP_2ND: push(static_cast<T6*>(nullptr), false); break;
                case OP_LATE: push(static_cast<Late*>(nullptr), true); break;
                case OP_EARLY: push(static_cast<Early*>(nullptr), true); break;
                case OP_HUGE: push(static_cast<T9*>(nullptr), false); break;
                }
                need = sz + a - 1;
                std::size_t net = sz;
                for (auto& l : live) { need += l.size + l.align; net += l.size; }
                bool full = live.size() >= Cap, fits = !full && need <= Mem, impossible = full || net > Mem;
                if (res == 3) return bad(where + "unexpected exception");
                if (impossible && res != 1) return bad(where + "exceeds the capacity but does not throw out_of_range");
                if (fits && res == 1) return bad(where + "throws out_of_range although there is room");
                if (res != 1 && res != (throwing ? 2 : 0)) return bad(where + "constructor outcome is lost");
                if (res == 0) {
                    if (p->id() != id) return bad(where + "returned reference is not the new object");
                    live.push_back({ p, id, static_cast<const char*>(p->begin()), sz, a });
                    if (p->size() != sz) return bad(where + "object has another size");
                    if (reinterpret_cast<std::uintptr_t>(live.back().beg) % a) return bad(where + "object is not aligned to " + std::to_string(a));
                    const char* b = reinterpret_cast<const char*>(st);
                    if (live.back().beg < b || live.back().beg + sz > b + sizeof(Stack)) return bad(where + "object lies outside the stack's storage");
                    for (std::size_t i = 0; i + 1 < live.size(); ++i) if (live[i].beg < live.back().beg + sz && live.back().beg < live[i].beg + live[i].size) return bad(where + "storage overlaps an earlier object");
                    if (log.destroyed.size() != before) return bad(where + "destroyed an object");
                } else {
                    std::size_t expect = before + (res == 2 && op == OP_LATE ? 1 : 0);   // the base part of the failed object
                    if (log.destroyed.size() != expect) return bad(where + "destroyed an object while failing");
                }
            }
            if (log.corrupt) return bad(where + "contents of an object were damaged");
            if (st->empty() != live.empty()) return bad(where + "empty() is wrong");
            if (!live.empty() && (&st->back() != live.back().p || st->back().id() != live.back().id)) return bad(where + "back() is not the most recent object");
            for (auto& l : live) if (!l.p->intact() || l.p->id() != l.id) return bad(where + "contents of object " + std::to_string(l.id) + " were damaged");
            if (states) { std::string s; for (auto& l : live) s += char(l.size & 127), s += char(l.beg - reinterpret_cast<const char*>(st)); states->insert(s); }
        }
        std::size_t before = log.destroyed.size();
        if (unwind) {
            struct Scope { Stack* s; ~Scope() { s->~Stack(); } };
            try { Scope scope{ st }; throw Thrown(); } catch (const Thrown&) {}
        } else st->~Stack();
        if (log.corrupt) return bad("destruction: contents of an object were damaged");
        if (log.destroyed.size() != before + live.size()) return bad("destruction of the stack destroys " + std::to_string(log.destroyed.size() - before) + " objects instead of " + std::to_string(live.size()));
        std::multiset<int> c(log.constructed.begin(), log.constructed.end()), d(log.destroyed.begin(), log.destroyed.end());
        if (c != d) return bad("an object is not destroyed exactly once");
        R.traces(1);
        return true;
    }
};
template<std::size_t Cap, std::size_t Mem> static void explore(Run& R, int depth, const std::vector<int>& alphabet) {
    for (std::size_t off = 0; off < 64; off += 8) for (int first : alphabet) {
        if (off % 16 && Mem != 256) continue;
        R.unit("stack capacity " + std::to_string(Cap) + " memory " + std::to_string(Mem) + " offset " + std::to_string(off) + " first " + NAMES[first], [&R, off, first, depth, alphabet] {
            Exec<Cap, Mem> x{ R };
            std::set<std::string> states;
            std::vector<int> ops{ first };
            R.sample("all sequences of " + std::to_string(depth) + " operations starting with " + NAMES[first]);
            std::function<bool()> rec = [&]() -> bool {
                if (int(ops.size()) == depth) {
                    std::uint64_t h = Cap * 1000 + Mem + off; for (int o : ops) h = h * 131 + std::uint64_t(o) + 1;
                    R.count(h);
                    return x.run(ops, off, &states, off / 16 % 2 == 1);
                }
                for (int o : alphabet) { ops.push_back(o); bool r = rec(); ops.pop_back(); if (!r) return false; }
                return true;
            };
            R.at("stack exploration");
            rec();
            R.states(states.size());
        });
    }
}
void define_stack(Run& R) {
    bool th = R.thorough();
    std::vector<int> all; for (int i = 0; i < OPS; ++i) all.push_back(i);
    explore<3, 256>(R, th ? 6 : 5, all);
    explore<5, 256>(R, th ? 6 : 5, all);
    explore<1, 256>(R, 4, all);
    explore<2, 64>(R, 4, all);
    explore<8, 1024>(R, th ? 7 : 6, { OP_POP, OP_S, OP_A64, OP_2ND, OP_LATE });
    explore<4, 512>(R, th ? 8 : 7, { OP_POP, OP_M, OP_A16, OP_2ND });
    // the default capacities: fill up with every pair of kinds, in every phase, then drain
    for (int a = 1; a < OPS; ++a) for (int b = 1; b < OPS; ++b) R.unit(std::string("default stack filled with ") + NAMES[a] + " and " + NAMES[b], [&R, a, b] {
        Exec<128, 4096> x{ R };
        for (int n : { 1, 2, 7, 30, 63, 64, 65, 126, 127, 128, 129, 140 }) for (int phase = 0; phase < 3; ++phase) {
            std::vector<int> ops;
            for (int i = 0; i < n; ++i) ops.push_back((i + phase) % 3 == 0 ? a : b);
            auto up = ops;
            for (int i = 0; i < n + 2; ++i) ops.push_back(OP_POP);
            auto again = ops; again.insert(again.end(), up.begin(), up.end());
            R.count(std::uint64_t(a) << 32 | std::uint64_t(b) << 24 | std::uint64_t(n) << 8 | std::uint64_t(phase));
            R.at("filling with " + std::string(NAMES[a]) + "/" + NAMES[b]);
            if (!x.run(up, 0, nullptr) || !x.run(up, 0, nullptr, true) ||  !x.run(ops, 8, nullptr) || !x.run(again, 24, nullptr)) return;
        }
    });
}
