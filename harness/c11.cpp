// C11: dates and date-times against an independent proleptic Gregorian calendar.
#include "core.hpp"
#include "types.hpp"
#include <persistence/datetime.hpp>
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>

template<typename T> static bool write_case(Run& R, const T& v, const std::string& text, bool dom) {
    R.eval();
    std::string w, want = "\"" + text + "\"";
    if (!persistence::write_to_string(v, w) || w != want) { R.fail_at(text, "written as " + show(w)); return false; }
    EqCtx q;
    T a{}, b{};
    if (!persistence::parse(w, a) || a != v) { R.fail_at(text, "parsed as another value or refused"); return false; }
    if (!persistence::deserialize(w, b) || b != v) { R.fail_at(text, "deserialized as another value or refused"); return false; }
    if (dom) {
        rapidjson::Document d;
        if (!persistence::serialize_to_document(v, d) || persistence::document_to_string(d) != want) { R.fail_at(text, "serialized differently"); return false; }
        T c{};
        if (!persistence::deserialize(d, c) || c != v) { R.fail_at(text, "DOM round trip gives another value"); return false; }
    }
    return true;
}
// lower-level conversion functions, where they exist with their present signatures
template<typename T> static bool iso_text(Run& R, T v, const std::string& text) {
    if constexpr (requires { std::string(persistence::to_iso_datetime(v).text); }) {
        auto iso = persistence::to_iso_datetime(v);
        if (std::string(iso.text) != text) { R.fail_at(text, "to_iso_datetime gives " + show(iso.text)); return false; }
    }
    if constexpr (requires { std::string(persistence::to_iso_date(v).text); }) {
        auto iso = persistence::to_iso_date(v);
        if (std::string(iso.text) != text.substr(0, 10)) { R.fail_at(text, "to_iso_date gives " + show(iso.text)); return false; }
    }
    return true;
}
template<typename I> static bool iso_date_text(Run& R, I y, I m, I d, const std::string& text) {
    if constexpr (requires { std::string(persistence::to_iso_date(y, m, d).text); }) {
        auto iso = persistence::to_iso_date(y, m, d);
        if (text != iso.text) { R.fail_at(text, "to_iso_date gives " + show(iso.text)); return false; }
    }
    return true;
}
template<typename U, typename T> static bool low_level(Run& R, const std::string& s, bool wd, bool wt, U y, U m, U d, long long t) {
    bool r;
    auto bad = [&](const char* f, bool got) { R.fail_at(show(s), std::string(f) + (got ? " accepts it" : " refuses it")); return false; };
    U Y = 0, M = 0, D = 0; T g{}, h{};
    if constexpr (requires { bool(persistence::parse_date(s.data(), s.size(), Y, M, D)); }) {
        if ((r = persistence::parse_date(s.data(), s.size(), Y, M, D)) != wd) return bad("parse_date", r);
        if (wd && (Y != y || M != m || D != d)) { R.fail_at(s, "parse_date gives another date"); return false; }
    }
    if constexpr (requires { bool(persistence::parse_date(s.data(), s.size(), g)); }) {
        long long days = wd ? days_from_civil(y, m, d) * 86400 : 0;
        bool wdt = wd && days >= -TS_MAX && days <= TS_MAX;
        if ((r = persistence::parse_date(s.data(), s.size(), g)) != wdt) return bad("parse_date into a time point", r);
        if (wdt && g != ts_from(days)) { R.fail_at(s, "parse_date gives another instant"); return false; }
    }
    if constexpr (requires { bool(persistence::parse_datetime(s.data(), s.size(), h)); }) {
        if ((r = persistence::parse_datetime(s.data(), s.size(), h)) != wt) return bad("parse_datetime", r);
        if (wt && h != ts_from(t)) { R.fail_at(s, "parse_datetime gives another instant"); return false; }
    }
    return true;
}
template<typename U> static bool validity(Run& R, U y) {
    if constexpr (requires { bool(persistence::is_leap_year(y)); }) if (persistence::is_leap_year(y) != leap(y)) { R.fail("is_leap_year is wrong"); return false; }
    if constexpr (requires { bool(persistence::is_valid_date(y, y, y)); })
        for (U m = 0; m <= 14; ++m) for (U d : { 0u, 1u, 2u, 27u, 28u, 29u, 30u, 31u, 32u, 33u }) {
            bool w = m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m);
            if (persistence::is_valid_date(y, m, d) != w) { R.fail_at(ref_date_str(y, m, d), "is_valid_date is wrong"); return false; }
        }
    return true;
}
static bool instant(Run& R, long long t, bool dom = false) {
    timestamp v = ts_from(t);
    std::string text = ref_datetime_str(t);
    R.count(Run::hash(text));
    if (!write_case(R, v, text, dom)) return false;
    std::string sp = text; sp[10] = ' ';
    timestamp a{};
    if (!persistence::parse("\"" + sp + "\"", a) || a != v) { R.fail_at(sp, "form with a space: refused or read as another instant by parse"); return false; }
    if (dom) { timestamp b{}; if (!persistence::deserialize("\"" + sp + "\"", b) || b != v) { R.fail_at(sp, "form with a space: refused or read as another instant by deserialize"); return false; } }
    return iso_text(R, v, text);
}
// text -> both readers for both types, and the public conversion functions
static bool read_case(Run& R, const std::string& s, bool full = true) {
    unsigned y, m, d; long long t;
    bool wd = s.size() == 10 && ref_date(s, y, m, d), wt = ref_datetime(s, t);
    R.count(Run::hash(s));
    std::string q; jquote(q, s);
    ymd a{}, b{}; timestamp e{}, f{};
    bool r;
    auto bad = [&](const char* f, bool got) { R.fail_at(show(s), std::string(f) + (got ? " accepts it" : " refuses it")); return false; };
    if ((r = persistence::parse(q, a)) != wd) return bad("parse into a date", r);
    if (wd && a != Spec<ymd>::mk(int(y), m, d)) { R.fail_at(s, "parsed as another date"); return false; }
    if ((r = persistence::parse(q, e)) != wt) return bad("parse into a time point", r);
    if (wt && e != ts_from(t)) { R.fail_at(s, "parsed as " + ref_datetime_str(ts_seconds(e))); return false; }
    if (full) {
        if ((r = persistence::deserialize(q, b)) != wd) return bad("deserialize into a date", r);
        if (wd && b != Spec<ymd>::mk(int(y), m, d)) { R.fail_at(s, "deserialized as another date"); return false; }
        if ((r = persistence::deserialize(q, f)) != wt) return bad("deserialize into a time point", r);
        if (wt && f != ts_from(t)) { R.fail_at(s, "deserialized as " + ref_datetime_str(ts_seconds(f))); return false; }
        if (!low_level<unsigned, timestamp>(R, s, wd, wt, y, m, d, t)) return false;
    }
    return true;
}
void define(Run& R) {
    bool th = R.thorough();
    for (int y0 = 0; y0 < 10000; y0 += 50) R.unit("dates of years " + std::to_string(y0), [&R, y0] {
        R.sample("every day of years " + std::to_string(y0) + " to " + std::to_string(y0 + 49));
        for (int y = y0; y < y0 + 50; ++y) {
            R.at("dates of year " + std::to_string(y));
            for (unsigned m = 1; m <= 12; ++m) for (unsigned d = 1; d <= month_days(y, m); ++d) {
                std::string t = ref_date_str(y, m, d);
                R.count(Run::hash(t));
                if (!write_case(R, Spec<ymd>::mk(y, m, d), t, true)) return;
                if (!iso_date_text<int>(R, y, int(m), int(d), t)) return;
            }
        }
    });
    // all month/day field values of all years (sampled years in quick: all of them for the leap-relevant fields)
    for (int y0 = 0; y0 < 10000; y0 += 100) R.unit("fields of years " + std::to_string(y0), [&R, y0, th] {
        for (int y = y0; y < y0 + 100; ++y) {
            R.at("fields of year " + std::to_string(y));
            bool all = th || y % 100 == 0 || y % 97 == 4;
            for (unsigned m = 0; m <= 99; ++m) for (unsigned d = 0; d <= 99; ++d) {
                if (!all && !((m == 2 && d >= 27 && d <= 31) || (m <= 13 && (d == 0 || d >= 29) && d <= 32))) continue;
                if (!read_case(R, ref_date_str(y, m, d), all)) return;
                if (all && (d <= 1 || (d >= 27 && d <= 33)) && !read_case(R, ref_date_str(y, m, d) + "T00:00:00Z")) return;
            }
        }
    });
    // instants: both sides of every day boundary of the representable range, every month start at odd times
    long long d0 = -TS_MAX / 86400, d1 = TS_MAX / 86400;
    for (long long b = d0; b <= d1; b += 1500) R.unit("instants around day boundaries " + std::to_string(b), [&R, b, d0, d1] {
        R.sample("day " + std::to_string(b) + ": " + ref_datetime_str(b * 86400));
        for (long long d = b; d < b + 1500 && d <= d1; ++d) {
            R.at("day " + std::to_string(d));
            for (long long o : { -1LL, 0LL, 1LL, 43199LL, 43200LL, 86399LL }) { long long t = d * 86400 + o; if (t >= -TS_MAX && t <= TS_MAX && !instant(R, t, o == 0)) return; }
        }
    });
    for (long long day : { 0LL, -1LL, 11016LL, d0 + 1, d1 - 1 }) for (int h = 0; h < 24; h += 6) R.unit("every second of day " + std::to_string(day) + " from hour " + std::to_string(h), [&R, day, h] {
        for (int s = h * 3600; s < (h + 6) * 3600; ++s) { R.at("second " + std::to_string(s)); if (!instant(R, day * 86400 + s)) return; }
    });
    // the time zone of the process is of no account
    for (const char* tz : { "EST5EDT,M3.2.0,M11.1.0", "<+1345>-13:45<+1445>,M9.5.0/2:45,M4.1.0/3:45", "<-12>12", "CET-1CEST,M3.5.0,M10.5.0/3", "Australia/Lord_Howe", "Europe/Dublin" }) R.unit(std::string("time zone ") + tz, [&R, tz, th] {
        const char* old = std::getenv("TZ"); std::string keep = old ? old : "";
        setenv("TZ", tz, 1); tzset();
        auto go = [&] {
            for (long long t = 946684800 - 86400; t < 946684800 + 2 * 366 * 86400LL; t += th ? 900 : 1800) { if (t % 86400 == 0) R.at(std::string("time zone ") + tz + ", " + ref_datetime_str(t)); if (!instant(R, t, t % 7200 == 0)) return; if (!instant(R, t - 1, false)) return; }
            for (int y = 1900; y < 2040; ++y) for (unsigned m = 1; m <= 12; ++m) { std::string d = ref_date_str(y, m, 15); R.at(std::string("time zone ") + tz + ", " + d); if (!write_case(R, Spec<ymd>::mk(y, m, 15), d, true) || !read_case(R, d + "T02:30:00Z")) return; }
        };
        go();
        if (old) setenv("TZ", keep.c_str(), 1); else unsetenv("TZ");
        tzset();
    });
    R.unit("limits", [&R] {
        for (long long t = TS_MAX - 90000; t <= TS_MAX; ++t) { R.at("limit " + std::to_string(t)); if (!instant(R, t) || !instant(R, -t)) return; }
        // just outside
        for (long long k = 1; k <= 90000; ++k) {
            for (long long t : { TS_MAX + k, -TS_MAX - k }) { std::string s = ref_datetime_str(t); R.at("outside " + s); if (!read_case(R, s, k < 4000)) return; }
        }
    });
    // 64-bit wrap-around candidates: instants whose nanosecond count wraps into range
    R.unit("beyond the range", [&R] {
        for (int y = 0; y <= 9999; ++y) for (auto md : { "-01-01", "-02-28", "-06-30", "-12-31", "-09-21", "-04-11", "-04-12" }) for (auto h : { "T00:00:00Z", " 23:59:59Z", "T12:34:56Z", "T00:12:43Z", "T00:12:44Z", "T23:47:16Z" }) {
            char b[8]; std::snprintf(b, sizeof b, "%04d", y);
            R.at("year " + std::string(b));
            if (!read_case(R, std::string(b) + md + h, y % 3 == 0)) return;
        }
    });
    // time fields: every hour/minute/second field value
    for (int h = 0; h < 100; h += 5) R.unit("time fields from hour " + std::to_string(h), [&R, h] {
        for (int H = h; H < h + 5; ++H) for (int M = 0; M < 100; ++M) for (int S = 0; S < 100; ++S) {
            bool in = (H < 26) && (M < 62) && (S < 62), edge = M % 10 == 9 || S % 10 == 0 || M == 60 || S == 60;
            if (!in && !edge) continue;
            char b[32]; std::snprintf(b, sizeof b, "2004-02-29T%02d:%02d:%02dZ", H, M, S);
            R.at(b);
            if (!read_case(R, b, H < 25)) return;
        }
    });
    // every byte at every position; every pair of characters from a set at every pair of positions; lengths
    for (std::string base : { "1982-10-23", "2000-02-29", "0000-01-01", "1982-10-23T01:02:03Z", "2000-02-29 23:59:59Z" })
        for (std::size_t p = 0; p < base.size(); ++p) R.unit("mutations of " + base + " at " + std::to_string(p), [&R, base, p] {
            for (int x = 0; x < 256; ++x) { std::string s = base; s[p] = char(x); R.at("mutation " + show(s)); if (!read_case(R, s)) return; }
            static const std::string cs = std::string("09-: TZ+.a/", 11) + std::string(1, '\0');
            for (char c : cs) for (std::size_t q = p; q < base.size(); ++q) for (char e : cs) { std::string s = base; s[p] = c; s[q] = e; if (!read_case(R, s)) return; }
            for (char c : cs) { std::string s = base; s.insert(p, 1, c); R.at("insertion " + show(s)); if (!read_case(R, s)) return; s = base; s.erase(p, 1); if (!read_case(R, s)) return; s += c; if (!read_case(R, s)) return; }
            R.at("prefix"); if (!read_case(R, base.substr(0, p))) return;
            if (!read_case(R, base.substr(p))) return;
            for (auto suf : { "Z", "T", " ", "T00:00:00", "T00:00:00Z", "+00:00", ".000Z", "00", "\n", "T00:00", "T00:00Z" }) { if (!read_case(R, base + suf)) return; if (!read_case(R, base.substr(0, base.size() - 1) + suf)) return; }
        });
    R.unit("public helpers", [&R] {
        for (unsigned y = 0; y <= 10100; ++y) {
            R.at("leap year " + std::to_string(y)); R.count(y);
            if (!validity<unsigned>(R, y)) return;
        }
        for (unsigned y = 1678; y <= 2261; ++y) for (unsigned m = 1; m <= 12; ++m) for (unsigned d = 1; d <= month_days(y, m); ++d) {
            long long t = days_from_civil(y, m, d) * 86400;
            if (persistence::make_datetime(y, m, d, 1, 2, 3) != ts_from(t + 3723)) { R.fail_at(ref_date_str(y, m, d), "make_datetime is wrong"); return; }
            R.eval();
        }
    });
}
