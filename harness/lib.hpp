// Outcome of library calls, and document enumeration.
#pragma once
#include "core.hpp"
#include "itype.hpp"
#include <functional>

struct Out {
    enum K { Ok, False, ParseErr, DeserErr, SerErr, Other } k = Ok;
    ValP v;
    std::string text, path, what;
    std::size_t offset = 0;
    bool ok() const { return k == Ok; }
    std::string str() const;
};
// the message of an error names the place in the documented form (a message that quotes a NUL character ends there)
inline bool message_fits(const Out& o, const std::string& text) {
    if (text.find("u0000") != std::string::npos || text.find('\0') != std::string::npos) return true;
    if (o.k == Out::ParseErr) { std::string h = "parse error at offset " + std::to_string(o.offset) + ": "; return o.what.size() > h.size() && o.what.compare(0, h.size(), h) == 0; }
    if (o.k == Out::DeserErr) { std::string t = " at " + o.path; return o.what.size() > t.size() && o.what.compare(o.what.size() - t.size(), t.size(), t) == 0; }
    return true;
}
Out call(const std::function<void(Out&)>& f);
inline std::string padded(const std::string& s) { return std::string(s.data(), s.size()); }   // a fresh copy in a block of its own

Out o_parse(const IType& t, const std::string& s);       // bool overload
Out o_parseT(const IType& t, const std::string& s);      // value overload
enum Src { S_STR, S_RVAL, S_DOC };
Out o_deser(const IType& t, const std::string& s, Src src = S_STR);
Out o_deserT(const IType& t, const std::string& s, Src src = S_STR);
Out o_write(const IType& t, const Val& v);
Out o_writeT(const IType& t, const Val& v);
Out o_ser(const IType& t, const Val& v, rapidjson::Document& d);
Out o_serT(const IType& t, const Val& v, rapidjson::Document& d);

struct Ref { bool ok; ValP v; std::vector<Off> offs; };
Ref ref_read(const IType& t, const Node& n, bool dom);

// true if the text contains something whose treatment by a conforming reader is left open
bool left_open(const Node& n);
bool has_key(const Node& n, const std::string& k);

// all documents derived from a conforming one by one structural edit
using DocFn = std::function<void(Node&)>;
void single_edits(const Node& base, const DocFn& fn, std::size_t max_nodes = 300);
void generic_docs(const DocFn& fn, int size);   // 1: scalars; 2: + containers of one; 3: + containers of two
std::size_t node_count(const Node& n);
const std::vector<Node>& alphabet();
void permute_keys(const Node& base, const DocFn& fn);
