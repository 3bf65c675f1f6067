// C24: enumerations without names.
#include "c24.hpp"
void define_c(Run& R) { enumeration<E8>(R, "E8"); enumeration<EU8>(R, "EU8"); enumeration<E16>(R, "E16"); enumeration<EU16>(R, "EU16"); }
