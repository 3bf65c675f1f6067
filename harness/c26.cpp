// Explores configurations of the library: which headers a program includes, in which order, with which compiler, language
// version and macros. Every program is generated, compiled against the current tree, linked and run.
#include "core.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sys/wait.h>
#include <unistd.h>
using std::string; using Strings = std::vector<string>;
namespace {
    string include_dir() { const char* r = std::getenv("VERIF_REPO"); return string(r && *r ? r : "/repo") + "/include"; }
    string sel_dir() { string f = __FILE__; auto p = f.rfind('/'); return (p == string::npos ? string(".") : f.substr(0, p)) + "/sel"; }
    struct Config { string cxx, std, flags; string text() const { return cxx + " -std=" + std + (flags.empty() ? "" : " " + flags); } };
    struct Scratch { string dir; Scratch() { char t[] = "/tmp/verif-c26-XXXXXX"; if (!mkdtemp(t)) { std::perror("mkdtemp"); _exit(9); } dir = t; } ~Scratch() { for (const char* f : { "a.cpp", "b.cpp", "prog", "log" }) ::unlink((dir + "/" + f).c_str()); ::rmdir(dir.c_str()); } };
    // runs a command; -1 if it could not be brought to an end (time or memory)
    int sh(const string& cmd, const string& log, string& output) {
        int rc = -1;
        for (int attempt = 0; attempt < 2; ++attempt) {
            int st = std::system((cmd + " >" + log + " 2>&1").c_str());
            rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
            std::ifstream f(log); output.assign(std::istreambuf_iterator<char>(f), {});
            bool killed = rc == 124 || rc == 137 || rc == -1 || output.find("Killed signal") != string::npos || output.find("virtual memory exhausted") != string::npos || output.find("No space left") != string::npos;
            if (!killed) return rc;
        }
        return -1;
    }
    struct Program { Strings headers, ops, kinds; string text() const {
        string s; for (auto& h : headers) s += "#include <persistence/" + h + ".hpp>\n"; for (auto& o : ops) s += "#define OP_" + o + "\n"; for (auto& k : kinds) s += "#define K_" + k + "\n"; return s + "#include \"kinds.hpp\"\n"; } };
    string join(const Strings& v, const string& sep = ", ") { string s; for (auto& x : v) s += (s.empty() ? "" : sep) + x; return s; }
    string excerpt(const string& s) { string r; std::size_t p = 0; int n = 0; while (p < s.size() && n < 4) { auto e = s.find('\n', p); if (e == string::npos) e = s.size(); string l = s.substr(p, e - p); if (l.find("error") != string::npos || l.find("expected") != string::npos || l.find("undefined reference") != string::npos || l.find("multiple definition") != string::npos) { r += (r.empty() ? "" : " // ") + l; ++n; } p = e + 1; } return r.empty() ? s.substr(0, 400) : r.substr(0, 900); }
    const string COMMON = " -w -I" + include_dir() + " -I" + sel_dir() + " ";
    enum Outcome { fine, compile_failed, run_failed, unknown };
    Outcome execute(const Config& c, const string& a, const string& b, bool run, string& detail) {
        Scratch t; std::ofstream(t.dir + "/a.cpp") << a; if (!b.empty()) std::ofstream(t.dir + "/b.cpp") << b;
        string cmd = "timeout 300 " + c.cxx + " -std=" + c.std + " " + c.flags + COMMON + t.dir + "/a.cpp" + (b.empty() ? "" : " " + t.dir + "/b.cpp") + (run ? " -o " + t.dir + "/prog" : " -fsyntax-only");
        int rc = sh(cmd, t.dir + "/log", detail);
        if (rc == -1) return unknown;
        if (rc) return compile_failed;
        if (!run) return fine;
        int st = std::system(("timeout 60 " + t.dir + "/prog >" + t.dir + "/log 2>&1").c_str());
        std::ifstream f(t.dir + "/log"); detail.assign(std::istreambuf_iterator<char>(f), {});
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return fine;
        if (detail.empty()) detail = "exit status " + std::to_string(st);
        return run_failed;
    }
    // a configuration in which the standard library, RapidJSON and the frame of the programs alone do not compile says nothing about the library
    bool usable(const Config& c) {
        static std::map<string, bool> known; auto it = known.find(c.text()); if (it != known.end()) return it->second;
        string d; bool boost = c.flags.find("BOOST") != string::npos;
        bool r = execute(c, string(boost ? "#include <boost/describe.hpp>\n" : "") + "#include <rapidjson/document.h>\n#include <rapidjson/reader.h>\n#include <rapidjson/writer.h>\n#include <rapidjson/stringbuffer.h>\n#include <rapidjson/error/en.h>\n#include <charconv>\n#include <limits>\n#include <type_traits>\n#include \"kinds.hpp\"\n", "", true, d) == fine;
        return known[c.text()] = r;
    }
}
void define(Run& R) {
    R.case_timeout = 700;
    R.extra_names = { "programs_compiled_and_run", "headers_compiled_alone", "configurations_unavailable" };
    bool deep = R.thorough();
    auto check = [&R](const Config& c, const string& what, const string& a, const string& b, bool run) -> string {
        string kase = what + " | " + c.text();
        R.at(kase);
        if (!usable(c)) { R.extra(2, 1); return ""; }
        string d; Outcome o = execute(c, a, b, run, d);
        if (o == unknown) { R.extra(2, 1); return ""; }
        R.count(Run::hash(kase + a + b)); R.states(1); R.sample(kase); R.extra(run ? 0 : 1, 1);
        if (o == compile_failed) R.fail("the program does not compile: " + excerpt(d));
        if (o == run_failed) R.fail("the program compiles but behaves differently: " + excerpt(d));
        return o == fine ? d : "";
    };
    const Config G17{"g++", "c++17", ""}, C17{"clang++", "c++17", ""}, G20{"g++", "c++20", ""}, C20{"clang++", "c++20", ""};
    auto with = [](Config c, const string& f) { c.flags += (c.flags.empty() ? "" : " ") + f; return c; };
    const string BOOST = "-DPERSISTENCE_BOOST_DESCRIBE";
    const Strings OPS = { "write", "serialize", "parse", "deserialize" };
    auto upper = [](string s) { for (auto& c : s) c = (char) std::toupper((unsigned char) c); return s; };
    struct Kind { string name; Strings needs; };
    const std::vector<Kind> KINDS = {
        { "fundamental", { "fundamental" } }, { "string", { "string" } }, { "enum", { "enum" } }, { "named", { "enum" } }, { "described", { "enum" } }, { "bytes", { "bytes" } }, { "datetime", { "datetime" } }, { "date", { "date" } },
        { "vector", { "vector", "fundamental", "string" } }, { "set", { "set", "fundamental", "string" } }, { "array", { "array", "fundamental", "string" } }, { "tuple", { "tuple", "fundamental", "string" } }, { "map", { "map", "fundamental", "string" } },
        { "pointer", { "pointer", "fundamental", "string" } }, { "variant", { "variant", "fundamental", "string" } }, { "object", { "object", "fundamental", "string" } },
        { "mixed", { "object", "vector", "map", "pointer", "array", "bytes", "datetime", "set", "fundamental", "string" } } };
    auto header = [](const string& op, const string& need) { return op + "_" + (op == "parse" && need == "tuple" ? "array" : need); };
    auto is20 = [](const Config& c) { return c.std != "c++17"; };
    // --- one operation, one kind of type: only the headers of the types that occur, in several orders
    for (auto& op : OPS) for (auto& k : KINDS) {
        if (op == "parse" && k.name == "variant") continue;
        Strings hs; for (auto& n : k.needs) hs.push_back(header(op, n));
        hs.push_back(op); if (k.name == "named") hs.push_back("enum_utility");
        std::vector<Strings> orders;
        if (deep && hs.size() <= 4) { std::sort(hs.begin(), hs.end()); do orders.push_back(hs); while (std::next_permutation(hs.begin(), hs.end())); }
        else { Strings h = hs; for (std::size_t i = 0; i < (deep ? hs.size() : 1); ++i) { orders.push_back(h); orders.emplace_back(h.rbegin(), h.rend()); std::rotate(h.begin(), h.begin() + 1, h.end()); } }
        for (std::size_t o = 0; o < orders.size(); ++o) {
            std::vector<Config> cs = { o % 2 ? C20 : G17, o % 2 ? C17 : G20 };
            if (deep) cs = { G17, C17, G20, C20 };
            if (k.name == "enum" || k.name == "named" || k.name == "described") { auto n = cs.size(); for (std::size_t i = 0; i < n; ++i) cs.push_back(with(cs[i], BOOST)); }
            if (k.name == "date") cs = { G20, C20 };
            Program p{ orders[o], { upper(op) }, { upper(k.name) } };
            for (auto& c : cs) R.unit(op + " " + k.name + " " + join(orders[o], ",") + " " + c.text(), [=, &R] { check(c, "headers " + join(p.headers), p.text(), "", true); });
        }
    }
    // --- all four operations on one kind of type: every operation first
    for (auto& k : KINDS) for (int first = 0; first < 4; ++first) {
        if (!deep && k.name == "mixed" && first % 2) continue;
        Strings hs, ops; for (int i = 0; i < 4; ++i) { auto& op = OPS[(first + i) % 4]; ops.push_back(upper(op)); if (!(op == "parse" && k.name == "variant")) for (auto& n : k.needs) hs.push_back(header(op, n)); hs.push_back(op); }
        if (k.name == "variant") ops.erase(std::find(ops.begin(), ops.end(), "PARSE"));
        if (k.name == "named") hs.push_back("enum_utility");
        Program p{ hs, ops, { upper(k.name) } };
        Config c = k.name == "date" ? (first % 2 ? G20 : C20) : first == 0 ? G17 : first == 1 ? C20 : first == 2 ? G20 : C17;
        R.unit("operations " + k.name + " " + std::to_string(first), [=, &R] { check(c, "headers " + join(p.headers), p.text(), "", true); });
    }
    // --- collective headers: everything at once, for every compiler, language version and set of macros
    {
        std::vector<Config> cs; for (auto& cxx : { "g++", "clang++" }) for (auto& s : { "c++17", "c++20", "c++23", "gnu++17" }) { if (!deep && !strncmp(s, "g", 1)) continue; cs.push_back({ cxx, s, "" }); cs.push_back({ cxx, s, BOOST }); if (deep || (!strcmp(cxx, "g++") && !strcmp(s, "c++17"))) { cs.push_back({ cxx, s, "-O2 -DNDEBUG" }); cs.push_back({ cxx, s, "-O2 " + BOOST }); } if (deep) { cs.push_back({ cxx, s, "-funsigned-char" }); cs.push_back({ cxx, s, "-O3 -DNDEBUG -fsanitize=undefined -fno-sanitize-recover=all" }); } }
        const std::vector<Strings> groups = { { "FUNDAMENTAL", "STRING" }, { "ENUM", "NAMED", "DESCRIBED", "BYTES", "DATETIME" }, { "VECTOR", "SET", "ARRAY", "POINTER" }, { "TUPLE", "MAP", "VARIANT" }, { "OBJECT", "MIXED" } };
        std::size_t rot = 0;
        for (auto& c : cs) for (auto& g : groups) {
            std::vector<Strings> hss = { { "persistence", "enum_utility" }, { "enum_utility", "deserialize_all", "parse_all", "serialize_all", "write_all" }, { "schema_utility", "utility", "write_all", "enum_utility", "serialize_all", "deserialize_all", "parse_all" }, { "parse_all", "deserialize_all", "write_all", "enum_utility", "serialize_all", "schema_utility" } };
            if (!deep) hss = { hss[rot++ % hss.size()] };
            for (auto& hs : hss) {
                Strings kinds = g; if (is20(c) && c.std[0] == 'c' && g[0] == "ENUM") kinds.push_back("DATE");
                Strings ops = { "WRITE", "SERIALIZE", "PARSE", "DESERIALIZE" };
                if (g[0] == "TUPLE" ) ops = { "WRITE", "SERIALIZE", "DESERIALIZE", "PARSE" };
                Program p{ hs, ops, kinds };
                R.unit("all " + c.text() + " " + g[0] + " " + hs[0], [=, &R] { check(c, "headers " + join(p.headers) + " for " + join(kinds), p.text(), "", true); });
            }
        }
    }
    // --- schemas: the same text in every configuration
    R.unit("schema", [=, &R] {
        string reference;
        std::vector<Strings> hss = { { "schema_utility" }, { "persistence", "schema_utility" }, { "schema", "write_all", "schema_utility" }, { "utility", "schema_utility", "object" } };
        for (auto& c : { G17, C17, G20, C20, with(G17, BOOST), with(C20, BOOST), with(G20, "-O2 -DNDEBUG") }) for (auto& hs : hss) {
            if (!deep && (c.flags.size() || c.std == "c++20") && hs.size() > 1) continue;
            Strings h = hs; if (std::find(h.begin(), h.end(), "object") == h.end()) h.push_back("object");
            h.push_back("datetime"); h.push_back("bytes");
            string got = check(c, "headers " + join(h), Program{ h, {}, { "SCHEMA" } }.text(), "", true);
            if (got.empty()) continue;
            if (reference.empty()) reference = got; else if (got != reference) R.fail("the schema differs between configurations: " + got.substr(0, 300));
        }
    });
    // --- every header on its own, twice
    const Strings PUBLIC = { "base64", "bytes", "datetime", "dictionary", "enum", "enum_utility", "exception", "number", "object", "object_members", "object_reflection", "utility", "persistence", "schema", "schema_utility",
        "deserialize", "deserialize_all", "deserialize_array", "deserialize_base", "deserialize_bytes", "deserialize_check", "deserialize_date", "deserialize_datetime", "deserialize_enum", "deserialize_fundamental", "deserialize_map", "deserialize_object", "deserialize_pointer", "deserialize_set", "deserialize_string", "deserialize_tuple", "deserialize_variant", "deserialize_vector",
        "parse", "parse_all", "parse_array", "parse_base", "parse_bytes", "parse_date", "parse_datetime", "parse_enum", "parse_fundamental", "parse_items", "parse_map", "parse_object", "parse_pointer", "parse_set", "parse_string", "parse_vector",
        "serialize", "serialize_all", "serialize_array", "serialize_base", "serialize_bytes", "serialize_date", "serialize_datetime", "serialize_enum", "serialize_fundamental", "serialize_map", "serialize_object", "serialize_pointer", "serialize_set", "serialize_string", "serialize_tuple", "serialize_variant", "serialize_vector",
        "write", "write_all", "write_array", "write_base", "write_bytes", "write_date", "write_datetime", "write_enum", "write_fundamental", "write_map", "write_object", "write_pointer", "write_set", "write_string", "write_tuple", "write_variant", "write_vector" };
    for (auto& h : PUBLIC) R.unit("alone " + h, [=, &R] {
        bool date = h.size() > 5 && h.substr(h.size() - 5) == "_date";
        string inc = "#include <persistence/" + h + ".hpp>\n";
        for (auto& c : { G17, C17, G20, C20, with(G17, BOOST), with(C17, BOOST), with(G20, BOOST), with(C20, BOOST) }) {
            if (R.stop()) return;
            if (date && !is20(c)) continue;
            if (!deep && !c.flags.empty() && h.find("enum") == string::npos && h.find("schema") == string::npos) continue;
            if (!deep && (c.cxx == "g++") != is20(c) && c.flags.empty()) continue;
            check(c, h + ".hpp alone", inc + inc + "int main() {}\n", "", false);
        }
    });
    // --- two translation units of one program
    for (auto& c : { G17, C20 }) for (int k = 0; k < 2; ++k) R.unit("linked " + c.text() + " " + std::to_string(k), [=, &R] {
        string all; Strings hs = PUBLIC; if (k) std::reverse(hs.begin(), hs.end());
        for (auto& h : hs) if (is20(c) || h.size() < 5 || h.substr(h.size() - 5) != "_date") all += "#include <persistence/" + h + ".hpp>\n";
        string frame = all + "#define OP_WRITE\n#define OP_SERIALIZE\n#define OP_PARSE\n#define OP_DESERIALIZE\n#define K_STRING\n#define K_BYTES\n#define K_DATETIME\n";
        check(c, "all headers in two translation units of one program", frame + "#define SECOND_UNIT\n#include \"kinds.hpp\"\n", frame + "#define NO_MAIN\n#define sel sel2\n#include \"kinds.hpp\"\nnamespace sel2 { void all() { strings(); bytes(); datetimes(); if (failures) std::abort(); } }\n#undef sel\nvoid second() { sel2::all(); }\n", true);
    });
}
