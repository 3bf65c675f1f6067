#include "c22.hpp"
void define_b(Run& R) {
    variant<V<vector<int>, vector<double>, vector<string>>>(R, "variant<vectors>");
    variant<V<array<int, 2>, pair<int, string>, tuple<int, int, int>, vector<int>, std::set<string>>>(R, "variant<fixed, free sequences>");
    variant<V<map<string, int>, map<string, string>, std::unordered_map<string, vector<int>>>>(R, "variant<maps>");
    variant<V<CAB, CA, CAs>>(R, "variant<CAB, CA, CAs>");
    variant<V<CA, CAB>>(R, "variant<CA, CAB>");
    variant<V<CAo, CAd, COpt, map<string, int>>>(R, "variant<CAo, CAd, COpt, map>");
    variant<V<map<string, int>, CAB>>(R, "variant<map, CAB>");
    variant<V<COpt, CA>>(R, "variant<COpt, CA>");
}
