#include "opsimpl.hpp"
// containers, text, bytes, dates
void ops_b(std::vector<Op>& L) {
    both<std::vector<int>, PB | DB | DR, WT | ST>(L, "vector<int>", "[1,2,3,-2147483648,2147483647]");
    read_ops<std::vector<int>, PT | DT>(L, "vector<int> out of range", "[1,2147483648]");
    both<std::map<std::string, std::vector<std::string>>, PB | DT | CORE, WB | SB | CORE>(L, "map", "{\"one key that is long enough\":[\"a\",\"\",\"another rather long string\"],\"z\":[]}");
    read_ops<std::map<std::string, std::vector<std::string>>, PT | DDT>(L, "map wrong element", "{\"k\":[\"a\",1]}");
    both<std::set<std::string>, PB | DB, WT | ST>(L, "set", "[\"a\",\"b\",\"c\"]");
    read_ops<std::set<std::string>, PT | DT>(L, "set duplicate", "[\"a\",\"b\",\"a\"]");
    both<timestamp, PB | DT, WT | ST | CORE>(L, "timestamp", "\"1984-10-24T23:59:59Z\"");
    both<std::array<timestamp, 2>, PB | DB | CORE, WT>(L, "timestamps", "[\"2024-02-29T00:00:00Z\",\"1970-01-01T00:00:00Z\"]");
    read_ops<timestamp, PT | DT>(L, "timestamp invalid", "\"1984-02-30T23:59:59Z\"");
    both<ymd, PB | DB, WT | ST>(L, "date", "\"2024-02-29\"");
    both<byte_vector, PB | DT, WT | ST>(L, "bytes", "\"AAECAwQFBgcICQoLDA0ODw==\"");
    read_ops<byte_vector, PT | DT>(L, "bytes invalid", "\"AA=A\"");
    both<std::vector<double>, PB | DB, WT | SB>(L, "doubles", "[0.1,1e300,-5e-324,1.5]");
    { auto v = std::make_shared<std::vector<double>>(std::vector<double>{1, __builtin_nan("")}); write_ops<std::vector<double>, WB | WT | SB | ST>(L, "doubles with NaN", v); }
    other_op(L, "parse_number", [] { int i = 0; double d = 0; bool a = persistence::parse_number<int>("-123", i), b = persistence::parse_number<double>("2.5", d), c = persistence::parse_number<int>("12x", i); return std::to_string(a) + std::to_string(b) + std::to_string(c) + std::to_string(i) + std::to_string(d); });
    other_op(L, "base64", [] { byte_vector b; bool r = persistence::base64_decode(std::string("TWFueSBoYW5kcw=="), b); std::string o; persistence::base64_encode(b, o); byte_vector c; bool q = persistence::base64_decode(std::string("TW"), c); return std::to_string(r) + o + std::to_string(q); });
    other_op(L, "document", [] { auto d = persistence::string_to_document(std::string("{\"a\":[1,2.5,\"x\"],\"b\":null}")); auto e = persistence::string_to_document(std::string("{\"a\":")); return persistence::document_to_string(d) + std::to_string(e.HasParseError()); });
    other_op(L, "datetime", [] { timestamp t{}, u{}; bool a = persistence::parse_datetime("2001-02-03T04:05:06Z", 20, t), b = persistence::parse_date("1999-12-31", 10, u);
        return std::to_string(a) + std::to_string(b) + std::string(persistence::to_iso_datetime(t).text, 20) + std::string(persistence::to_iso_date(u).text, 10); }, true);
}
