#define C16_PART3
#include "c16.cpp"
