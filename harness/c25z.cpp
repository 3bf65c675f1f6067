#include "c25.hpp"
void define_z(Run& R) { shapes<U<NUL>>(R, "user null"); shapes2<U<NUL>>(R, "user null"); }
