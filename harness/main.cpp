#include "core.hpp"
void define(Run&);
int main(int argc, char** argv) { Run r; return r.main(argc, argv, define); }
