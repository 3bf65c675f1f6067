#include "core.hpp"
void define_c06i(Run&) {}
