#include "ops.hpp"
thread_local bool ops_active = false;
void ops_a(std::vector<Op>&); void ops_b(std::vector<Op>&); void ops_c(std::vector<Op>&); void ops_d(std::vector<Op>&); void ops_e(std::vector<Op>&);
const std::vector<Op>& ops() {
    static const std::vector<Op>* L = [] { auto* l = new std::vector<Op>; ops_a(*l); ops_b(*l); ops_c(*l); ops_d(*l); std::size_t n = l->size(); ops_e(*l); for (; n < l->size(); ++n) (*l)[n].extra = true; return l; }();
    return *L;
}
