#include "opsimpl.hpp"
// classes and nested classes
void ops_a(std::vector<Op>& L) {
    both<C2, PB | PT | DB | DDT | CORE, WT | CORE>(L, "C2", "{\"a\":12,\"b\":\"text that does not fit into a small buffer\"}");
    read_ops<C2, PT | DT | CORE>(L, "C2 wrong kind", "{\"a\":12,\"b\":[1]}");
    read_ops<C2, PB | PT | DT>(L, "C2 missing member", "{\"a\":12}");
    read_ops<C2, PT | DT>(L, "C2 unknown member", "{\"a\":12,\"zz\":1,\"b\":\"\"}");
    read_ops<C2, PB | PT>(L, "C2 malformed", "{\"a\":12,\"b\":\"x\"");
    both<Nest, PB | DB, WB | SB>(L, "Nest", "{\"c2\":{\"a\":1,\"b\":\"x\"},\"c3\":{\"alpha\":1,\"gamma\":2.5},\"vec\":[{\"a\":2,\"b\":\"y\"}],\"map\":{\"k\":{\"only\":3}},\"ptr\":{\"a\":4,\"b\":\"z\"},\"arr\":[{\"only\":5},{\"only\":6}]}");
    read_ops<Nest, PT | DT>(L, "Nest late failure", "{\"c2\":{\"a\":1,\"b\":\"x\"},\"vec\":[{\"a\":2,\"b\":\"y\"},{\"a\":2,\"b\":7}],\"map\":{},\"ptr\":{\"a\":4,\"b\":\"z\"},\"arr\":[{\"only\":5},{\"only\":6}]}");
}
