// Type-erased access to the library for one C++ type: public operations plus reference semantics.
#pragma once
#include "types.hpp"
#include <functional>
#include <rapidjson/document.h>

struct Val { virtual ~Val() {} };
using ValP = std::unique_ptr<Val>;
template<typename T> struct ValT : Val { T v{}; ValT() = default; explicit ValT(T&& x) : v(std::move(x)) {} };

struct IType {
    std::string name;
    bool readable = true;      // DOM reader available
    bool parsable = true;      // direct parser available
    bool has_schema = true;
    bool ordered = true;       // false: contains an unordered_map (key order of the text is open)
    virtual ~IType() {}
    // domain and reference semantics
    virtual std::size_t count(int level) const = 0;
    virtual ValP make(std::size_t i, int level) const = 0;
    virtual ValP fresh() const = 0;
    virtual void remake(Val&, std::size_t i, int level) const = 0;    // another value at the same address
    virtual Node enc(const Val&, bool& ok) const = 0;
    virtual bool dec(const Node&, Val&, DecCtx&) const = 0;
    virtual bool eq(const Val&, const Val&, bool identity = false) const = 0;
    // library
    virtual bool write(const Val&, std::string&) const = 0;
    virtual std::string writeT(const Val&) const = 0;
    virtual bool ser(const Val&, rapidjson::Document&) const = 0;
    virtual rapidjson::Document serT(const Val&) const = 0;
    virtual bool parse(const std::string&, Val&) const = 0;
    virtual ValP parseT(const std::string&) const = 0;
    virtual bool deserS(const std::string&, Val&) const = 0;
    virtual bool deserR(std::string&&, Val&) const = 0;
    virtual bool deserD(rapidjson::Document&, Val&) const = 0;
    virtual ValP deserST(const std::string&) const = 0;
    virtual ValP deserRT(std::string&&) const = 0;
    virtual ValP deserDT(rapidjson::Document&) const = 0;
    virtual std::string schema() const = 0;
    virtual std::string schema_doc() const = 0;
    // conformity at the level a JSON schema can express: 0 no, 1 yes; +2 several variant alternatives match, +4 equal elements in a set
    virtual int conf(const Node&) const = 0;
};

std::vector<IType*>& registry();
inline void reg(IType* t) { registry().push_back(t); }
inline IType* find_type(const std::string& n) { for (auto* t : registry()) if (t->name == n) return t; return nullptr; }

std::string doc_text(const rapidjson::Document&);
bool text_doc(const std::string&, rapidjson::Document&);
