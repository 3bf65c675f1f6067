// C14: functions that take views and pointers with lengths: nothing outside of the given range is touched.
#include "core.hpp"
#include <persistence/exception.hpp>
#include "types.hpp"
#include "jv.hpp"
#include <persistence/base64.hpp>
#include <persistence/number.hpp>
#include <persistence/datetime.hpp>
#include <persistence/dictionary.hpp>
#include <cstdlib>
#include <cstring>
#include <string_view>

struct Exact { char* p; std::size_t n; explicit Exact(const std::string& s) : p(static_cast<char*>(std::malloc(s.size() ? s.size() : 1))), n(s.size()) { if (n) std::memcpy(p, s.data(), n); } ~Exact() { std::free(p); }
    std::string_view view() const { return { n ? p : p + 1, n }; } };      // an empty view points at the end of its block
static void each(Run& R, const std::string& s) {
    R.at(show(s)); R.count(Run::hash(s));
    Exact e(s); auto v = e.view();
    { int x = 0; persistence::parse_number<int>(v, x); } { unsigned long x = 0; persistence::parse_number<unsigned long>(v, x); } { signed char x = 0; persistence::parse_number<signed char>(v, x); }
    { float x = 0; persistence::parse_number<float>(v, x); } { double x = 0; persistence::parse_number<double>(v, x); } { long double x = 0; persistence::parse_number<long double>(v, x); }
    { persistence::timestamp t; persistence::parse_date(v.data(), v.size(), t); persistence::parse_datetime(v.data(), v.size(), t); unsigned y, m, d; persistence::parse_date(v.data(), v.size(), y, m, d); }
    { byte_vector b; persistence::base64_decode(v, b); std::string o; persistence::base64_encode(v, o); }
    { EStr x; persistence::enum_traits<EStr>::from_string(v, x); EOne y; persistence::enum_traits<EOne>::from_string(v, y); }
}
void define(Run& R) {
    static const std::string A("0129-+.eEx:TZ =Aa/\0\x80\xff", 22);
    for (char a : A) R.unit(std::string("short texts starting with byte ") + std::to_string(int(static_cast<unsigned char>(a))), [&R, a] {
        each(R, ""); each(R, std::string(1, a));
        for (char b : A) { each(R, std::string{a, b}); for (char c : A) { each(R, std::string{a, b, c}); for (char d : A) { each(R, std::string{a, b, c, d}); if (R.thorough()) for (char e : A) each(R, std::string{a, b, c, d, e}); } } }
    });
    R.unit("structured texts", [&R] {
        for (std::string s : { "2024-02-29", "2024-02-29T23:59:59Z", "9999-12-31T00:00:00Z", "0000-01-01", "-12345678901234567890", "18446744073709551615", "1.7976931348623157e308", "-5e-324", "0x1p-3", "inf", "nan", "1e99999",
                "TWFueSBoYW5kcyBtYWtlIGxpZ2h0IHdvcmsu", "TWFu", "TWE=", "TQ==", "Unuo", "only" }) {
            for (std::size_t n = 0; n <= s.size(); ++n) { each(R, s.substr(0, n)); each(R, s.substr(n)); each(R, s + s.substr(0, n)); }
            for (std::size_t i = 0; i < s.size(); ++i) for (int c = 0; c < 256; ++c) { std::string m = s; m[i] = char(c); each(R, m); each(R, m.substr(0, i + 1)); }
        }
    });
}
