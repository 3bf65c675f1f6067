#include "opsimpl.hpp"
#include <persistence/schema_utility.hpp>
// variants, derived classes, optional members, schemas
void ops_d(std::vector<Op>& L) {
    both<std::vector<V2>, DB | DT, WT | ST>(L, "variants", "[true,1.5,\"x\",[1,2]]");
    read_ops<std::vector<V2>, DB | DT>(L, "variants none", "[true,{}]");
    both<std::vector<V3>, DB | CORE, WB>(L, "variants with classes", "[{\"a\":1,\"b\":\"x\"},[\"y\"],\"z\"]");
    both<Der2, PB | DT, WT | ST>(L, "Der2", "{\"base_r\":1,\"base_o\":\"o\",\"base_d\":6,\"der_r\":\"r\",\"der_o\":2,\"der_d\":false,\"der2_r\":[1,2],\"der2_o\":\"Du\"}");
    read_ops<Der2, PB | PT | DT>(L, "Der2 incomplete", "{\"base_r\":1,\"der_r\":\"r\"}");
    both<C8o, PB | DB | CORE, WT>(L, "C8o", "{\"o1\":1,\"o3\":\"three\",\"o7\":{\"a\":1,\"b\":\"x\"},\"o8\":{\"k\":1}}");
    both<C8, PB | DDT, WB | SB>(L, "C8", "{\"bool_value\":true,\"char_value\":65,\"short_value\":-3,\"long_value\":5000000000,\"float_value\":1.5,\"double_value\":0.1,\"string_value\":\"s\",\"enum_value\":\"Tri\"}");
    both<C24, PB | PT, WT>(L, "C24", "{\"m00\":0,\"m01\":1,\"m02\":2,\"m03\":3,\"m04\":4,\"m05\":5,\"m06\":6,\"m07\":7,\"m08\":8,\"m09\":9,\"m10\":10,\"m11\":11,\"m12\":12,\"m13\":13,\"m14\":14,\"m15\":15,\"m16\":16,\"m17\":17,\"m18\":18,\"m19\":19,\"m20\":20,\"m21\":21,\"m22\":22,\"m23\":23}");
    both<std::tuple<int, std::string, std::vector<int>>, DB, WT | ST>(L, "tuple", "[1,\"two\",[3]]");
    other_op(L, "schema of a class", [] { return persistence::schema_to_string<Der>(); }, true);
    other_op(L, "schema document of a recursive class", [] { return persistence::schema_document_to_string<Tree>(); }, true);
    other_op(L, "schema of a nested class", [] { return persistence::schema_to_string<C8>(); });
}
