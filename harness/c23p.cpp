// C23 through the public interface: the parser's handler stack at every nesting depth.
#include "core.hpp"
#include "types.hpp"
#include <persistence/exception.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>

void define_stack(Run& R);
static std::string nest(int depth, int kind) {
    std::string a, b;
    for (int i = 0; i < depth; ++i) { a += "{\"value\":" + std::to_string(i) + ",\"children\":["; if (kind) a += "{\"value\":7,\"children\":[]},"; b = "]}" + b; }
    return a + "{\"value\":-1,\"children\":[]}" + b;
}
static std::string chain(int depth) { std::string a, b; for (int i = 0; i < depth; ++i) { a += "{\"v\":" + std::to_string(i) + ",\"next\":"; b += "}"; } return a + "{\"v\":-1}" + b; }
void define(Run& R) {
    R.unit("parser nesting", [&R] {
        for (int d = 0; d <= 400; ++d) {
            if (R.stop()) return;
            for (int kind = 0; kind < 2; ++kind) {
                R.at("tree of depth " + std::to_string(d)); R.count(Run::hash("tree" + std::to_string(d * 2 + kind))); R.states(1); R.transitions(std::uint64_t(d) * 2); R.traces(1);
                Tree t; std::string s = nest(d, kind), w;
                bool ok = false;
                try { ok = persistence::parse(s, t); } catch (...) { R.fail("exception from the non-throwing overload"); return; }
                if (!ok && d <= 60) { R.fail("supported depth is refused"); return; }
                if (ok && (!persistence::write_to_string(t, w) || w != s)) { R.fail("parsed object differs"); return; }
            }
            R.at("list of depth " + std::to_string(d)); R.count(Run::hash("list" + std::to_string(d))); R.states(1); R.transitions(std::uint64_t(d)); R.traces(1);
            List l; std::string s = chain(d), w;
            bool ok = false;
            try { ok = persistence::parse(s, l); } catch (...) { R.fail("exception from the non-throwing overload"); return; }
            if (!ok && d <= 60) { R.fail("supported depth is refused"); return; }
            if (ok && (!persistence::write_to_string(l, w) || w != s)) { R.fail("parsed object differs"); return; }
        }
    });
    define_stack(R);
}
