// C06: the range check that guards every narrowing.
#include "core.hpp"
#include "spec.hpp"
#include <persistence/detail/numeric_traits.hpp>
template<typename To, typename From> static void range(Run& R, const char* to, const char* from) {
    R.unit(std::string("is_assignable<") + to + ">(" + from + ")", [&R, to, from] {
        auto one = [&](From x) {
            bool want = static_cast<__int128>(x) >= static_cast<__int128>(std::numeric_limits<To>::min()) && static_cast<__int128>(x) <= static_cast<__int128>(std::numeric_limits<To>::max());
            R.at(std::string(to) + " <- " + from + " " + int_literal(x)); R.count(Run::hash(int_literal(x)) ^ Run::hash(std::string(to) + "/" + from));
            if (persistence::is_assignable<To>(x) != want) R.fail("range check answers " + std::string(want ? "no" : "yes") + " for " + int_literal(x));
        };
        if (sizeof(From) <= 2) { for (long x = std::numeric_limits<From>::min(); x <= long(std::numeric_limits<From>::max()); ++x) one(From(x)); return; }
        for (From x : Spec<From>::list(0)) one(x);
        for (int b = 0; b < 64; ++b) for (int c = 0; c <= b; ++c) for (int d = -2; d <= 2; ++d) {
            __int128 p = (static_cast<__int128>(1) << b) + (c < b ? (static_cast<__int128>(1) << c) : 0) + d;
            for (__int128 q : { p, -p }) if (q >= static_cast<__int128>(std::numeric_limits<From>::min()) && q <= static_cast<__int128>(std::numeric_limits<From>::max())) one(From(q));
        }
    });
}
template<typename From> static void froms(Run& R, const char* f) {
    range<signed char, From>(R, "signed char", f); range<unsigned char, From>(R, "unsigned char", f); range<char, From>(R, "char", f); range<short, From>(R, "short", f); range<unsigned short, From>(R, "unsigned short", f);
    range<int, From>(R, "int", f); range<unsigned, From>(R, "unsigned", f); range<long, From>(R, "long", f); range<unsigned long, From>(R, "unsigned long", f); range<long long, From>(R, "long long", f); range<unsigned long long, From>(R, "unsigned long long", f);
}
void define_c06i(Run& R) {
    froms<signed char>(R, "signed char"); froms<unsigned char>(R, "unsigned char"); froms<short>(R, "short"); froms<unsigned short>(R, "unsigned short"); froms<int>(R, "int"); froms<unsigned>(R, "unsigned");
    froms<long>(R, "long"); froms<unsigned long>(R, "unsigned long"); froms<long long>(R, "long long"); froms<unsigned long long>(R, "unsigned long long");
}
