#include "c22.hpp"
void define_b(Run&); void define_c(Run&); void define_d(Run&);
void define(Run& R) {
    R.extra_names = { "conforming_documents" };
    // overlapping scalars in every order
    variant<V<bool, int>>(R, "variant<bool, int>");
    variant<V<int, bool, string>>(R, "variant<int, bool, string>");
    variant<V<short, int, long long, double>>(R, "variant<short, int, long long, double>");
    variant<V<double, int>>(R, "variant<double, int>");
    variant<V<int, double>>(R, "variant<int, double>");
    variant<V<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, float, double>>(R, "variant<all numbers>");
    variant<V<unsigned long, long, double, float>>(R, "variant<unsigned long, long, double, float>");
    variant<V<ymd, timestamp, string>>(R, "variant<date, timestamp, string>");
    variant<V<EStr, EBoost, byte_vector, string>>(R, "variant<EStr, EBoost, bytes, string>");
    variant<V<string, EStr>>(R, "variant<string, EStr>");
    variant<V<std::nullptr_t, bool, E8, EStr>>(R, "variant<nullptr, bool, E8, EStr>");
    variant<V<int>>(R, "variant<int>");
    define_b(R); define_c(R); define_d(R);
}
