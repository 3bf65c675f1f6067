// C16: shared by the explorers of the perfect hash.
#pragma once
#include "core.hpp"
#include "jv.hpp"
#include <array>
#include <cstdint>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <persistence/detail/perfect_hash.hpp>

template<std::size_t N> static bool one(Run& R, const std::vector<std::string>& names, const std::vector<std::string>& others) {
    std::array<std::string_view, N> a;
    for (std::size_t i = 0; i < N; ++i) a[i] = names[i];
    persistence::PerfectHash<N> h(a);
    R.count(Run::hash(std::to_string(N) + names[0], Run::hash(names[N / 2] + "|" + names[N - 1])) ^ [&] { std::uint64_t x = 0; for (auto& n : names) x = Run::hash(n, x * 31 + 7); return x; }());
    for (std::size_t i = 0; i < N; ++i) { std::size_t k = h.index(std::string(names[i])); if (k != i) { R.fail("name '" + show(names[i]) + "' has index " + std::to_string(k) + " instead of " + std::to_string(i)); return false; } }
    for (auto& o : others) { std::size_t k = h.index(o); if (k >= N) { R.fail("key '" + show(o) + "' gives an index out of range: " + std::to_string(k)); return false; } }
    return true;
}
static std::string list(const std::vector<std::string>& n) { std::string s; for (auto& x : n) { s += "'" + show(x) + "' "; if (s.size() > 1500) { s += "..."; break; } } return s; }
static const std::vector<std::string>& others() { static const std::vector<std::string> o = { "", "a", "zz", "unknown", std::string("a\0", 2), "\xff\xfe", std::string(100, 'q') }; return o; }
