// Instantiates IType for concrete types. Uses the public interface of the library only.
#pragma once
#include "itype.hpp"
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>
#if !defined(OPS_WRITE) && !defined(OPS_SER) && !defined(OPS_PARSE) && !defined(OPS_DESER) && !defined(WITH_SCHEMA)
#define OPS_WRITE
#define OPS_SER
#define OPS_PARSE
#define OPS_DESER
#endif
#ifdef WITH_SCHEMA
#include "conf.hpp"
#include <persistence/schema.hpp>
#include <persistence/schema_utility.hpp>
#endif

enum : int { NO_PARSE = 1, NO_SCHEMA = 2, UNORDERED = 4, WRITE_ONLY = 8 };

template<typename T, int Flags> struct TypeT : IType {
    static constexpr bool R = !(Flags & WRITE_ONLY), P = R && !(Flags & NO_PARSE), S = !(Flags & NO_SCHEMA);
    TypeT(const char* n) { name = n; readable = R; parsable = P; has_schema = S; ordered = !(Flags & UNORDERED); }
    static const T& g(const Val& v) { return static_cast<const ValT<T>&>(v).v; }
    static T& g(Val& v) { return static_cast<ValT<T>&>(v).v; }
    static ValP box(T&& v) { return std::make_unique<ValT<T>>(std::move(v)); }

    std::size_t count(int level) const override { return Spec<T>::count(level); }
    ValP make(std::size_t i, int level) const override { return box(Spec<T>::at(i, level)); }
    void remake(Val& v, std::size_t i, int level) const override { T* p = &g(v); p->~T(); ::new (static_cast<void*>(p)) T(Spec<T>::at(i, level)); }
    ValP fresh() const override { return std::make_unique<ValT<T>>(); }
    Node enc(const Val& v, bool& ok) const override { EncCtx c; Node n = Spec<T>::enc(g(v), c); ok = c.ok; return n; }
    bool dec(const Node& n, Val& v, DecCtx& c) const override { c.root = &n; return Spec<T>::dec(n, g(v), c); }
    bool eq(const Val& a, const Val& b, bool identity) const override { EqCtx c; c.identity = identity; return Spec<T>::eq(g(a), g(b), c); }

#ifdef OPS_WRITE
bool write(const Val& v, std::string& s) const override { return persistence::write_to_string(g(v), s); }
    std::string writeT(const Val& v) const override { return persistence::write_to_string(g(v)); }
#else
    bool write(const Val& , std::string& ) const override { std::abort(); }
    std::string writeT(const Val& ) const override { std::abort(); }
#endif
#ifdef OPS_SER
bool ser(const Val& v, rapidjson::Document& d) const override { return persistence::serialize_to_document(g(v), d); }
    rapidjson::Document serT(const Val& v) const override { return persistence::serialize_to_document(g(v)); }
#else
    bool ser(const Val& , rapidjson::Document& ) const override { std::abort(); }
    rapidjson::Document serT(const Val& ) const override { std::abort(); }
#endif
#ifdef OPS_PARSE
bool parse(const std::string& s, Val& v) const override { if constexpr (P) return persistence::parse(s, g(v)); else std::abort(); }
    ValP parseT(const std::string& s) const override { if constexpr (P) return box(persistence::parse<T>(s)); else std::abort(); }
#else
    bool parse(const std::string& , Val& ) const override { std::abort(); }
    ValP parseT(const std::string& ) const override { std::abort(); }
#endif
#ifdef OPS_DESER
bool deserS(const std::string& s, Val& v) const override { if constexpr (R) return persistence::deserialize(s, g(v)); else std::abort(); }
    bool deserR(std::string&& s, Val& v) const override { if constexpr (R) return persistence::deserialize(std::move(s), g(v)); else std::abort(); }
    bool deserD(rapidjson::Document& d, Val& v) const override { if constexpr (R) return persistence::deserialize(d, g(v)); else std::abort(); }
    ValP deserST(const std::string& s) const override { if constexpr (R) return box(persistence::deserialize<T>(s)); else std::abort(); }
    ValP deserRT(std::string&& s) const override { if constexpr (R) return box(persistence::deserialize<T>(std::move(s))); else std::abort(); }
    ValP deserDT(rapidjson::Document& d) const override { if constexpr (R) return box(persistence::deserialize<T>(d)); else std::abort(); }
#else
    bool deserS(const std::string& , Val& ) const override { std::abort(); }
    bool deserR(std::string&& , Val& ) const override { std::abort(); }
    bool deserD(rapidjson::Document& , Val& ) const override { std::abort(); }
    ValP deserST(const std::string& ) const override { std::abort(); }
    ValP deserRT(std::string&& ) const override { std::abort(); }
    ValP deserDT(rapidjson::Document& ) const override { std::abort(); }
#endif
#ifdef WITH_SCHEMA
    int conf(const Node& n) const override { if constexpr (S) { ConfCtx c; bool r = Conf<T>::ok(n, c); return r | (c.overlap << 1) | (c.dup << 2); } else std::abort(); }
    std::string schema() const override { if constexpr (S) return persistence::schema_to_string<T>(); else std::abort(); }
    std::string schema_doc() const override { if constexpr (S) return persistence::schema_document_to_string<T>(); else std::abort(); }
#else
    int conf(const Node&) const override { std::abort(); }
    std::string schema() const override { std::abort(); }
    std::string schema_doc() const override { std::abort(); }
#endif
};

#define REG(FLAGS, ...) reg(new TypeT<__VA_ARGS__, FLAGS>(#__VA_ARGS__));
