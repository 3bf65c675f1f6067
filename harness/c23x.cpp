#include "core.hpp"
void define_stack(Run&) {}
