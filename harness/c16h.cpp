// C16: the perfect-hash construction over all small sets of names.
#include "c16h.hpp"
void define_families(Run& R);
// all ordered selections of K elements of a universe
template<std::size_t K> static void selections(Run& R, const std::string& name, const std::vector<std::string>& U, bool ordered) {
    for (std::size_t f = 0; f < U.size(); ++f) R.unit("name sets of " + std::to_string(K) + " from " + name + ", first " + std::to_string(f), [&R, U, ordered, f] {
        std::vector<std::string> cur{ U[f] };
        std::vector<bool> used(U.size(), false); used[f] = true;
        std::function<void(std::size_t)> rec = [&](std::size_t from) {
            if (R.stop()) return;
            if (cur.size() == K) { R.at(list(cur)); one<K>(R, cur, others()); return; }
            for (std::size_t i = ordered ? 0 : from; i < U.size(); ++i) { if (used[i]) continue; used[i] = true; cur.push_back(U[i]); rec(i + 1); cur.pop_back(); used[i] = false; }
        };
        rec(f + 1);
    });
}
void define_hash(Run& R) {
    bool th = R.thorough();
    R.case_timeout = 15;
    std::vector<std::string> u1 = { "" };
    for (char a : { 'a', 'b', 'A' }) { u1.push_back(std::string(1, a)); for (char b : { 'a', 'b', 'A' }) u1.push_back(std::string(1, a) + b); }
    std::vector<std::string> u2;   // equal in low-order bits
    for (char a : { 'a', 'q', '1', 'A', 'Q', '\xe1' }) { u2.push_back(std::string(1, a)); u2.push_back(std::string(2, a)); }
    std::vector<std::string> u3 = { "id", "name", "value", "type", "Name", "names", "nam", "first_name", "last_name", "creamwove", "quists", "\xc3\xa9", "a b", "0", "00", "$ref" };
    std::vector<std::string> u4; for (int i = 0; i < 256; ++i) u4.push_back(std::string(1, char(i)));
    auto all = [&](const char* n, const std::vector<std::string>& U, bool big) {
        selections<1>(R, n, U, true); selections<2>(R, n, U, true); selections<3>(R, n, U, true);
        if (big) { selections<4>(R, n, U, true); selections<5>(R, n, U, th); selections<6>(R, n, U, false); selections<7>(R, n, U, false); selections<8>(R, n, U, false); }
    };
    all("short names", u1, true); all("names equal in low bits", u2, true); all("ordinary names", u3, true);
    selections<1>(R, "single bytes", u4, true); selections<2>(R, "single bytes", u4, true);
    selections<3>(R, "single bytes", u4, false);
    define_families(R);
}
