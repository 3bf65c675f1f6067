// C24: enumerations without names.
#include "c24.hpp"
void define_d(Run& R) { enumeration<EChar>(R, "EChar"); enumeration<E64>(R, "E64"); enumeration<EU64>(R, "EU64"); }
