// C06: all values of the 8/16-bit types through every mode.
#include "core.hpp"
#include "spec.hpp"
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>
template<typename T> static void all_values(Run& R, const char* name) {
    R.unit(std::string("all values ") + name, [&R, name] {
        for (long x = std::numeric_limits<T>::min(); x <= long(std::numeric_limits<T>::max()) && !R.stop(); ++x) {
            T v = T(x), a = T(x + 1), b = T(x + 1);
            std::string want = std::to_string(x);
            R.at(name, want); R.count(Run::hash(std::string(name) + "|all|" + want));
            std::string s = persistence::write_to_string(v), d = persistence::document_to_string(persistence::serialize_to_document(v));
            if (s != want || d != want) { R.fail("written as " + s + " / " + d); continue; }
            if (!persistence::parse(want, a) || a != v) R.fail("parsed as " + std::to_string(long(a)));
            if (!persistence::deserialize(want, b) || b != v) R.fail("deserialized as " + std::to_string(long(b)));
        }
    });
}
void define_c06w(Run& R) {
    all_values<signed char>(R, "signed char"); all_values<unsigned char>(R, "unsigned char"); all_values<char>(R, "char"); all_values<short>(R, "short"); all_values<unsigned short>(R, "unsigned short");
}
