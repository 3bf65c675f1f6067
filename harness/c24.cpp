// C24: enumerations with names.
#include "c24.hpp"
void define_b(Run&); void define_c(Run&); void define_d(Run&); void define_e(Run&);
void define(Run& R) {
    R.extra_names = { "conforming_documents" };
    enumeration<EStr>(R, "EStr"); enumeration<EOne>(R, "EOne"); enumeration<ECustom>(R, "ECustom"); enumeration<EOdd>(R, "EOdd");
    converter<EStr>(R, "EStr", persistence::enum_traits<EStr>::converter); converter<EOne>(R, "EOne", persistence::enum_traits<EOne>::converter); converter<EOdd>(R, "EOdd", persistence::enum_traits<EOdd>::converter);
    define_b(R); define_c(R); define_d(R); define_e(R);
}
