#include "c25.hpp"
void define_b(Run& R) { shapes<U<BOOL>>(R, "user boolean"); shapes2<U<BOOL>>(R, "user boolean"); }
