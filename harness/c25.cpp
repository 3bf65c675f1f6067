#include "c25.hpp"
void define_s(Run&); void define_n(Run&); void define_b(Run&); void define_z(Run&); void define_a(Run&); void define_o(Run&); void define_w(Run&); void define_e(Run&);
struct Share { using HarnessClass = Share; Wrap<SI> a; vector<Wrap<SI>> v; map<string, Pass<SI>> m; SI d; std::optional<Wrap<SI>> o;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(m) & MEMBER_VARIABLE(d) & MEMBER_VARIABLE(o); }
    template<typename F> static void fields(F& f) { f.req("a", &Share::a); f.req("v", &Share::v); f.req("m", &Share::m); f.req("d", &Share::d); f.opt("o", &Share::o); } };
void define(Run& R) {
    R.extra_names = { "conforming_documents", "refused_or_throwing_values" };
    // objects shared through user-defined types: every partition of six slots
    R.unit("sharing", [&R] {
        std::vector<int> p(6, 0);
        auto go = [&](auto& self, std::size_t i, int used) -> void {
            if (R.stop()) return;
            if (i == p.size()) {
                std::vector<SI> q; for (int k = 0; k < used; ++k) q.push_back(std::make_shared<int>(10 + k));
                Share s; s.a.v = q[p[0]]; s.v.resize(2); s.v[0].v = q[p[1]]; s.v[1].v = q[p[2]]; s.m["k"].v = q[p[3]]; s.d = q[p[4]]; s.o.emplace().v = q[p[5]];
                check_write<Share>(R, "Share", s);
                EncCtx c; Node d = Spec<Share>::enc(s, c);
                if (!check_read<Share, false>(R, "Share", d)) R.fail("harness: document does not conform");
                R.extra(0, 1);
                return;
            }
            for (int k = 0; k <= used; ++k) { p[i] = k; self(self, i + 1, std::max(used, k + 1)); }
        };
        go(go, 0, 0);
    });
    define_s(R); define_n(R); define_b(R); define_z(R); define_a(R); define_o(R); define_w(R); define_e(R);
}
