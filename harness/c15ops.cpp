#include "c15.hpp"
#include "opsimpl.hpp"
// a user class every special member function of which can throw
struct Bomb {
    using HarnessClass = Bomb;
    int v = 0;
    std::string s;
    Bomb() { fault::user_point(); ++fault::live_user; }
    Bomb(const Bomb& o) : v(o.v), s(o.s) { fault::user_point(); ++fault::live_user; }
    Bomb(Bomb&& o) : v(o.v), s(std::move(o.s)) { fault::user_point(); ++fault::live_user; }
    Bomb& operator=(const Bomb& o) { fault::user_point(); v = o.v; s = o.s; return *this; }
    Bomb& operator=(Bomb&& o) { fault::user_point(); v = o.v; s = std::move(o.s); return *this; }
    ~Bomb() { --fault::live_user; }
    bool operator<(const Bomb& o) const { return v != o.v ? v < o.v : s < o.s; }
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v) & MEMBER_VARIABLE(s); }
    template<typename F> static void fields(F& f) { f.req("v", &Bomb::v); f.req("s", &Bomb::s); }
};
#define L_BH(R, O, D, N) R(b, Bomb) O(o, Bomb) R(vec, std::vector<Bomb>) O(map, std::map<std::string, Bomb>) R(up, std::unique_ptr<Bomb>) O(sp, std::shared_ptr<Bomb>) R(arr, Ar2<Bomb>) R(last, int)
CLS(BombHolder, L_BH)
#define B1 "{\"v\":1,\"s\":\"a string of some length, outside of the object\"}"
#define B2 "{\"v\":2,\"s\":\"\"}"
#define B3 "{\"v\":3,\"s\":\"x\"}"
static constexpr unsigned RD_ALL = PB | PT | DB | DT | DR | DD | DDT, RD_DOM = DB | DT | DD | DDT, WR_ALL = WB | WT | SB | ST;
void ops_bomb(std::vector<Op>& L) {
    both<Bomb, RD_ALL, WR_ALL>(L, "Bomb", B1);
    both<std::vector<Bomb>, RD_ALL, WR_ALL>(L, "vector<Bomb>", "[" B1 "," B2 "," B3 "]");
    read_ops<std::vector<Bomb>, PB | PT | DB | DT>(L, "vector<Bomb> late failure", "[" B1 "," B2 ",{\"v\":\"\"}]");
    both<std::map<std::string, Bomb>, PB | PT | DB | DT, WB | SB>(L, "map<Bomb>", "{\"a\":" B1 ",\"a key that is rather long, too long to be short\":" B2 "}");
    both<std::unordered_map<std::string, std::vector<Bomb>>, PB | DB, WB | SB>(L, "unordered_map<vector<Bomb>>", "{\"a\":[" B1 "," B2 "],\"b\":[]}");
    both<std::set<Bomb>, PB | PT | DB | DT, WB | SB>(L, "set<Bomb>", "[" B1 "," B2 "," B3 "]");
    read_ops<std::set<Bomb>, PB | DB>(L, "set<Bomb> duplicate", "[" B1 "," B2 "," B1 "]");
    both<std::array<Bomb, 3>, PB | PT | DB | DT, WB | SB>(L, "array<Bomb>", "[" B1 "," B2 "," B3 "]");
    both<std::unique_ptr<Bomb>, PB | PT | DB | DT, WB | SB>(L, "unique_ptr<Bomb>", B1);
    both<std::vector<std::unique_ptr<Bomb>>, PB | PT | DB | DT, WB | SB>(L, "vector<unique_ptr<Bomb>>", "[" B1 "," B2 "]");
    both<std::vector<std::shared_ptr<Bomb>>, RD_DOM, WR_ALL>(L, "vector<shared_ptr<Bomb>>", "[" B1 ",{\"$ref\":\"/0\"}," B2 ",{\"$ref\":\"/2\"}]");
    read_ops<std::vector<std::shared_ptr<Bomb>>, PB | PT>(L, "vector<shared_ptr<Bomb>> direct", "[" B1 "," B2 "]");
    both<std::pair<Bomb, std::vector<Bomb>>, DB | DT, WB | SB>(L, "pair", "[" B1 ",[" B2 "," B3 "]]");
    both<std::tuple<Bomb, int, Bomb>, DB | DT, WB | SB>(L, "tuple", "[" B1 ",1," B3 "]");
    both<std::variant<int, std::vector<Bomb>, Bomb>, DB | DT | DD, WB | SB>(L, "variant", B1);
    both<std::vector<std::variant<std::vector<Bomb>, std::map<std::string, Bomb>, Bomb>>, DB | DT, WB | SB>(L, "variants", "[" B1 ",[" B2 "," B3 "],{\"k\":" B1 "}]");
    both<BombHolder, PB | PT | DB | DT | DR, WR_ALL>(L, "BombHolder", "{\"b\":" B1 ",\"o\":" B2 ",\"vec\":[" B1 "," B2 "],\"map\":{\"k\":" B3 "},\"up\":" B1 ",\"sp\":" B2 ",\"arr\":[" B1 "," B2 "],\"last\":1}");
    read_ops<BombHolder, PB | PT | DB | DT>(L, "BombHolder late failure", "{\"b\":" B1 ",\"o\":" B2 ",\"vec\":[" B1 "," B2 "],\"up\":" B1 ",\"sp\":" B2 ",\"arr\":[" B1 "," B2 "],\"last\":\"\"}");
    read_ops<BombHolder, PB | PT | DB | DT>(L, "BombHolder malformed", "{\"b\":" B1 ",\"o\":" B2 ",\"vec\":[" B1 "," B2);
    both<std::vector<std::vector<std::map<std::string, std::unique_ptr<Bomb>>>>, PB | PT | DB, WB | SB>(L, "nested", "[[{\"a\":" B1 "}],[{\"b\":" B2 "},{}],[]]");
}
