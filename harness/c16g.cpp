#include "core.hpp"
void define_families(Run&) {}
