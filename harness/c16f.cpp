// C16: families of names at every size.
#include "c16h.hpp"
template<std::size_t N> static void sized(Run& R) {
    R.unit("families of " + std::to_string(N) + " names", [&R] {
        auto go = [&](const char* what, const std::function<std::string(std::size_t)>& f) {
            if (R.stop()) return;
            std::vector<std::string> n; std::set<std::string> s;
            for (std::size_t i = 0; i < N; ++i) { n.push_back(f(i)); s.insert(n.back()); }
            if (s.size() != N) return;
            R.at(std::string(what) + " " + list(n));
            if (!one<N>(R, n, others())) return;
            std::vector<std::string> r(n.rbegin(), n.rend());
            one<N>(R, r, others());
        };
        for (auto p : { "m", "member_", "", "k0", "\xc3\xa9" }) { go(p, [&](std::size_t i) { return p + std::to_string(i); }); go(p, [&](std::size_t i) { return std::to_string(i) + p; }); }
        go("padded", [](std::size_t i) { char b[16]; std::snprintf(b, sizeof b, "k%03zu", i); return std::string(b); });
        go("unary", [](std::size_t i) { return std::string(i, 'x'); });
        go("unary+1", [](std::size_t i) { return std::string(i + 1, 'y'); });
        go("binary", [](std::size_t i) { std::string s; for (std::size_t x = i + 1; x; x >>= 1) s += char('a' + (x & 1)); return s; });
        go("binary low-bit", [](std::size_t i) { std::string s; for (std::size_t x = i + 1; x; x >>= 1) s += (x & 1) ? 'a' : 'q'; return s; });
        go("high bits", [](std::size_t i) { std::string s; for (std::size_t x = i + 1; x; x /= 3) s += "aq\xe1"[x % 3]; return s; });
        go("bytes", [](std::size_t i) { return std::string(1, char(i + 1)); });
        go("two bytes", [](std::size_t i) { return std::string(1, char(i % 7 + 65)) + char(i / 7 + 97); });
        go("words", [](std::size_t i) { static const char* w[] = { "id", "name", "value", "type", "first", "last", "count", "index", "size", "data", "key", "list" }; return std::string(w[i % 12]) + (i < 12 ? "" : "_" + std::string(w[i / 12 % 12])) + (i < 144 ? "" : std::to_string(i)); });
        go("long tail", [](std::size_t i) { return std::string(200, 'z') + std::to_string(i); });
        go("long head", [](std::size_t i) { return std::to_string(i) + std::string(200, 'z'); });
    });
}
template<std::size_t... I> static void sizes(Run& R, std::index_sequence<I...>) { (sized<I + 1>(R), ...); }
void define_families(Run& R) {
    sizes(R, std::make_index_sequence<72>());
    sized<96>(R); sized<97>(R); sized<100>(R); sized<127>(R); sized<128>(R); sized<129>(R); sized<160>(R); sized<256>(R); sized<257>(R);
}
