// Exploration runner: units of work are distributed over forked worker processes; crashes and hangs of the code under
// test are attributed to the current case and confirmed by re-running the unit alone before being reported.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

struct Violation { std::string unit, kase, detail; };

class Run {
public:
    int argc; char** argv;
    std::string tier = "quick";
    bool thorough() const { return tier == "thorough"; }

    // ---- used by explorers
    void unit(const std::string& name, std::function<void()> body) { units.push_back({name, std::move(body)}); }
    // announces the case about to be executed (kept in shared memory so that a crash can be attributed)
    void at(const std::string& kase);
    void at(const std::string& a, const std::string& b) { at(a + " | " + b); }
    // counts one executed case; `hash` identifies it, `nontrivial` says whether it exercised the property
    void count(std::uint64_t hash, bool nontrivial = true);
    void eval(std::uint64_t n = 1);
    void states(std::uint64_t n);
    void transitions(std::uint64_t n);
    void traces(std::uint64_t n);
    void extra(int slot, std::uint64_t n);      // free counters 0..15, named by `extra_names`
    std::vector<std::string> extra_names;
    void sample(const std::string& s);
    void fail(const std::string& detail);        // the current case violates the property
    void fail_at(const std::string& kase, const std::string& detail) { at(kase); fail(detail); }
    bool stop() const;                           // enough violations in this unit
    double case_timeout = 40;                    // seconds without progress that count as a hang

    int main(int argc, char** argv, std::function<void(Run&)> define);

    static std::uint64_t hash(const std::string& s, std::uint64_t h = 1469598103934665603ull) {
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }
private:
    struct Unit { std::string name; std::function<void()> body; };
    std::vector<Unit> units;
    std::size_t current = 0;
    int worker = -1;
    int fails_in_unit = 0;
    std::unordered_set<std::uint64_t> seen;
    void run_unit(std::size_t i);
    void worker_loop();
    void flush_seen();
    int confirm(std::size_t i, double timeout);
};
extern Run* RUN;
