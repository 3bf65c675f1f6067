#define C16_PART2
#include "c16.cpp"
