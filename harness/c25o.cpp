#include "c25.hpp"
void define_o(Run& R) { shapes<U<OBJ>>(R, "user object"); shapes2<U<OBJ>>(R, "user object"); }
