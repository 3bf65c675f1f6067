#include "c25.hpp"
void define_s(Run& R) { shapes<U<STR>>(R, "user string"); shapes2<U<STR>>(R, "user string"); }
