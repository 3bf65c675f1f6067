// A fixed repertoire of operations of the public interface, each with prepared, shared, constant inputs; used by the explorers of
// histories (C18), schedules (C17) and faults (C15).
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>

struct Res {                       // everything observable about one call; rendered later, after other calls were made
    std::string head;              // how the call ended
    std::function<std::string()> body;
    std::string text() const { return head + (body ? " => " + body() : std::string()); }
};
struct Op {
    std::string name;
    std::function<void(Res&)> call;
    std::function<std::string()> inputs;   // renders the inputs (to see that they are left alone)
    bool core = false;
    bool extra = false;                    // combined with its neighbours and itself only
};
const std::vector<Op>& ops();
// switched off around code of the harness itself (recording of accesses, faults)
extern thread_local bool ops_active;
struct OpsActive { bool o = ops_active; explicit OpsActive(bool v) { ops_active = v; } ~OpsActive() { ops_active = o; } };
inline bool combined(const std::vector<Op>& L, std::size_t a, std::size_t b) { return (!L[a].extra && !L[b].extra) || (a < b ? b - a : a - b) <= 3; }
