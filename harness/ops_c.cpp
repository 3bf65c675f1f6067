#include "opsimpl.hpp"
// pointers, sharing, enumerations
void ops_c(std::vector<Op>& L) {
    both<EStr, PB | DT, WT | ST>(L, "EStr", "\"Unuo\"");
    read_ops<EStr, PT | DT | CORE>(L, "EStr unknown", "\"Nope\"");
    { auto v = std::make_shared<EStr>(EStr(77)); write_ops<EStr, WB | SB>(L, "EStr unnamed", v); }
    both<std::vector<EBoost>, PB | DB, WT | ST>(L, "EBoost", "[\"Left\",\"R\"]");
    both<std::vector<std::shared_ptr<int>>, DB | DDT | CORE, WT | ST | CORE>(L, "shared", "[1,{\"$ref\":\"/0\"},2,{\"$ref\":\"/2\"}]");
    read_ops<std::vector<std::shared_ptr<int>>, DB | DT>(L, "shared dangling", "[1,{\"$ref\":\"/5\"}]");
    both<std::vector<std::shared_ptr<SG>>, DT | DD, WB | SB>(L, "graph", "[{\"id\":1,\"next\":[],\"named\":{}},{\"id\":2,\"next\":[{\"$ref\":\"/0\"},{\"id\":3,\"next\":[],\"named\":{}}],\"left\":{\"$ref\":\"/0\"},\"named\":{\"k\":{\"$ref\":\"/1/next/1\"}}}]");
    { auto v = std::make_shared<std::vector<std::shared_ptr<int>>>(std::vector<std::shared_ptr<int>>{std::make_shared<int>(1), nullptr}); write_ops<std::vector<std::shared_ptr<int>>, WB | ST>(L, "shared null", v); }
    both<Tree, PB | DB, WT | ST>(L, "Tree", "{\"value\":1,\"children\":[{\"value\":2,\"children\":[{\"value\":3,\"children\":[]}]},{\"value\":4,\"children\":[]}]}");
    both<List, PB | DDT, WB | SB>(L, "List", "{\"v\":1,\"next\":{\"v\":2,\"next\":{\"v\":3}}}");
    { std::string d(300, '['); read_ops<std::vector<List>, PT>(L, "too deep", [] { std::string s = "["; for (int i = 0; i < 200; ++i) s += "{\"v\":1,\"next\":"; s += "{\"v\":2}"; for (int i = 0; i < 200; ++i) s += "}"; return s + "]"; }()); }
}
