// Controlled scheduler: threads run one at a time; every synchronisation operation (and, on request, every access to given memory) is a
// scheduling point; all accesses of instrumented code are checked for data races by vector clocks.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {
constexpr int MAXT = 3;
struct Choice { std::uint8_t n; std::uint8_t preempt; };      // number of enabled threads; whether the running one was among them
struct Race { std::uintptr_t addr, pc1, pc2; };
struct Outcome {
    std::vector<Choice> choices;
    std::vector<std::uintptr_t> sync[MAXT];    // synchronisation objects touched per thread
    std::vector<Race> races;
    bool deadlock = false;
    std::string error;
    std::uint64_t accesses = 0, steps = 0;
};
void setup();                                   // reserves stacks and arenas (once, before any fork)
// runs the bodies as threads under the given schedule; to be called in a fresh child process
Outcome execute(const std::vector<std::function<void()>>& bodies, const std::vector<std::uint8_t>& prefix, const std::vector<std::uintptr_t>& sync_points, const std::vector<std::uintptr_t>& access_points);
}
