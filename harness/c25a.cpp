#include "c25.hpp"
void define_a(Run& R) { shapes<U<ARR>>(R, "user array"); shapes2<U<ARR>>(R, "user array"); }
