// C24: enumerations described with Boost.Describe.
#include "c24.hpp"
void define_b(Run& R) { enumeration<EBoost>(R, "EBoost"); enumeration<ELong>(R, "ELong"); enumeration<EPlain>(R, "EPlain"); enumeration<EDesc1>(R, "EDesc1"); }
