// C01/C02, dictionaries kept as a sequence of pairs (string_dict): written as a JSON object.
#include "core.hpp"
#include "types.hpp"
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>
void define_pairs(Run& R, bool dom) {
    R.unit("string_dict", [&R, dom] {
        for (std::size_t n = 0; n < 4; ++n) {
            persistence::string_dict<int> v, r;
            for (std::size_t i = 0; i < n; ++i) v.push_back({nth_key(i), int(i)});
            R.at("string_dict<int> of " + std::to_string(n) + " entries");
            R.count(Run::hash("string_dict" + std::to_string(n)));
            std::string s = dom ? persistence::document_to_string(persistence::serialize_to_document(v)) : persistence::write_to_string(v);
            bool ok = dom ? persistence::deserialize(s, r) : persistence::parse(s, r);
            if (!ok) R.fail("written as an object, which reading refuses");
            else if (r != v) R.fail("reads back as a different dictionary");
        }
    });
}
