#include "c25.hpp"
void define_n(Run& R) { shapes<U<NUM>>(R, "user number"); shapes2<U<NUM>>(R, "user number"); }
