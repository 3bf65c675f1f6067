#include "c25.hpp"
void define_e(Run& R) { shapes<Own>(R, "class with own form"); shapes<OwnE>(R, "enumeration with own form"); user<vector<vector<Own>>>(R, "vector<vector<class with own form>>"); user<H3<OwnE>>(R, "class of five with enumeration with own form"); }
