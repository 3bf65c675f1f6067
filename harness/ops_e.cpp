#include "opsimpl.hpp"
#include <persistence/schema_utility.hpp>
// the remaining kinds of types, long keys, large indices, escapes, numbers of every size
namespace {
std::string many(std::size_t n, const char* element, const char* last) { std::string s = "["; for (std::size_t i = 0; i + 1 < n; ++i) s += std::string(element) + ","; return s + last + "]"; }
const char* const LONG = "a key that is longer than any small buffer for keys could be, with ~ and / and \\\" and \\u0001 and a good deal of further text to fill up one hundred and more bytes in it";
}
void ops_e(std::vector<Op>& L) {
    both<bool, PB | DB, WT | ST>(L, "bool", "true");
    both<int, PB | DT, WT | SB>(L, "int", "-2147483648");
    both<unsigned long long, PB | DB, WB | ST>(L, "u64", "18446744073709551615");
    both<float, PB | DB, WT>(L, "float", "0.100000001490116");
    read_ops<float, PT | DT>(L, "float too large", "1e39");
    both<std::string, PB | DB, WT | ST>(L, "string", "\"\\u0000 \\\" \\\\ \\ud83d\\ude00 and a text that is much longer than a short string\"");
    read_ops<std::string, PT | DT>(L, "string bad escape", "\"abc\\ud83d\"");
    both<std::pair<int, std::string>, PB | DB, WT | ST>(L, "pair", "[1,\"second\"]");
    read_ops<std::pair<int, std::string>, PT | DT>(L, "pair too long", "[1,\"second\",3]");
    both<std::unordered_map<std::string, int>, PB | DT, WT | SB>(L, "unordered_map", "{\"k\":1}");
    both<std::array<std::string, 2>, PB | DB, ST>(L, "array", "[\"x\",\"y\"]");
    read_ops<std::array<std::string, 2>, PT | DT>(L, "array too short", "[\"x\"]");
    both<std::unique_ptr<C2>, PB | DB, WT | ST>(L, "unique_ptr", "{\"a\":1,\"b\":\"x\"}");
    both<std::vector<ECustom>, PB | DB, WT | ST>(L, "ECustom", "[\"minus five\",\"zero\"]");
    both<EInt, PB | DT, WT | ST>(L, "EInt", "-5");
    both<CLong, PB | DB, WT>(L, "CLong", "{\"a_member_whose_name_is_longer_than_any_small_string_buffer\":1,\"i\":\"x\"}");
    both<C1, PB | DB, WT>(L, "C1", "{\"only\":1}");
    read_ops<C1, PT | DT>(L, "C1 other name", "{\"onlx\":1}");
    { std::string k = std::string("{\"") + LONG + "\":{\"" + LONG + "\":[";
      read_ops<std::map<std::string, std::map<std::string, std::vector<int>>>, PT | DT | DDT>(L, "long keys, wrong value", k + "1,true]}}");
      both<std::map<std::string, std::map<std::string, std::vector<int>>>, PB | DB, WT | ST>(L, "long keys", (k + "1,2]}}").c_str());
      both<std::map<std::string, std::vector<std::shared_ptr<int>>>, DT, WT | ST>(L, "sharing under a long key", (std::string("{\"") + "a key that is longer than any small buffer for keys could be, and rather longer than that in order to be sure" + "\":[1,{\"$ref\":\"/a key that is longer than any small buffer for keys could be, and rather longer than that in order to be sure/0\"}]}").c_str()); }
    read_ops<std::vector<int>, PT | DT>(L, "large index, wrong value", many(1002, "1", "\"x\""));
    both<std::vector<int>, PB | DB, WT | ST>(L, "long vector", many(300, "-70000", "7").c_str());
    read_ops<std::vector<std::shared_ptr<int>>, DB>(L, "sharing at a large index", many(1003, "1", "{\"$ref\":\"/1001\"}"));
    { std::string b = "\""; for (int i = 0; i < 400; ++i) b += "QUJD"; both<byte_vector, PB | DB, WT | ST>(L, "many bytes", (b + "QQ==\"").c_str()); }
    both<std::shared_ptr<V3>, DB, WT>(L, "shared variant", "{\"a\":1,\"b\":\"x\"}");
    read_ops<std::set<std::string>, DT>(L, "set wrong element", "[\"a\",\"b\",7]");
    read_ops<std::tuple<int, std::string, std::vector<int>>, DT>(L, "tuple wrong element", "[1,\"two\",[3,4,null]]");
    read_ops<std::unordered_map<std::string, int>, PT | DT>(L, "unordered_map wrong element", "{\"k\":1,\"l\":[]}");
    other_op(L, "schema of many kinds", [] { return persistence::schema_to_string<std::map<std::string, std::tuple<int, std::vector<std::string>, EStr>>>() + persistence::schema_document_to_string<Nest>() + persistence::schema_to_string<std::array<std::set<int>, 3>>(); });
}
