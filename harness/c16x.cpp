#include "core.hpp"
void define_hash(Run&) {}
