#pragma once
#include "ops.hpp"
#include <persistence/exception.hpp>
#include "types.hpp"
#include "sharing.hpp"
#include <new>
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>

inline std::string dom_text(const rapidjson::Value& v) {       // independent of the library
    using namespace rapidjson;
    switch (v.GetType()) {
    case kNullType: return "null";
    case kFalseType: return "false";
    case kTrueType: return "true";
    case kStringType: return "\"" + std::string(v.GetString(), v.GetStringLength()) + "\"";
    case kNumberType: return (v.IsUint64() ? std::to_string(v.GetUint64()) : v.IsInt64() ? std::to_string(v.GetInt64()) : std::to_string(v.GetDouble()) + "d");
    case kArrayType: { std::string s = "["; for (auto& e : v.GetArray()) s += dom_text(e) + ","; return s + "]"; }
    case kObjectType: { std::string s = "{"; for (auto& m : v.GetObject()) s += dom_text(m.name) + ":" + dom_text(m.value) + ","; return s + "}"; }
    }
    return "?";
}
template<typename T> std::string obj_text(const T& v) { EncCtx c; Node n = Spec<T>::enc(v, c); return jtext(n) + (c.ok ? "" : " (not representable)"); }

// runs f with the outcome recorded; only f itself is part of the call
template<typename F> void ending(Res& r, F&& f) {
    const char* kind = ""; std::string what;
    try { OpsActive a(true); f(); return; }
    catch (const persistence::JsonParseError& e) { OpsActive a(false); r.head = std::string("JsonParseError ") + e.what() + " at " + std::to_string(e.offset); }
    catch (const persistence::JsonDeserializationError& e) { OpsActive a(false); r.head = std::string("JsonDeserializationError ") + e.what() + " at " + e.path; }
    catch (const persistence::JsonSerializationError& e) { OpsActive a(false); r.head = std::string("JsonSerializationError ") + e.what(); }
    catch (const std::bad_alloc&) { OpsActive a(false); r.head = "bad_alloc"; }
    catch (const std::exception& e) { OpsActive a(false); r.head = std::string("exception ") + e.what(); }
    catch (...) { OpsActive a(false); r.head = "unknown exception"; }
    r.body = nullptr;
}
inline void said(Res& r, bool ok) { OpsActive a(false); r.head = ok ? "true" : "false"; }

enum OpKind { PB = 1, PT = 2, DB = 4, DT = 8, DR = 16, DD = 32, DDT = 64, WB = 128, WT = 256, SB = 512, ST = 1024, DRT = 2048, CORE = 4096 };

template<typename T> struct Holder { T v{}; };
template<typename T, unsigned K> void read_ops(std::vector<Op>& L, const std::string& name, const std::string& text0) {
    auto text = std::make_shared<const std::string>(text0);
    auto in = [text] { return *text; };
    bool core = K & CORE;
    auto keep = [](Res& r, std::shared_ptr<Holder<T>> h) { OpsActive a(false); r.body = [h] { return obj_text<T>(h->v); }; };
    if constexpr ((K & PB) != 0) L.push_back({name + " parse(text, obj)", [=](Res& r) {
        auto h = std::make_shared<Holder<T>>();
        bool ok = false;
        ending(r, [&] { ok = persistence::parse(*text, h->v); said(r, ok); });
        if (ok) keep(r, h);
    }, in, core});
    if constexpr ((K & PT) != 0) L.push_back({name + " parse<T>(text)", [=](Res& r) {
        auto h = std::make_shared<Holder<T>>();
        bool ok = false;
        ending(r, [&] { h->v = persistence::parse<T>(*text); ok = true; said(r, ok); });
        if (ok) keep(r, h);
    }, in, core});
    if constexpr ((K & DB) != 0) L.push_back({name + " deserialize(text, obj)", [=](Res& r) {
        auto h = std::make_shared<Holder<T>>();
        bool ok = false;
        ending(r, [&] { ok = persistence::deserialize(*text, h->v); said(r, ok); });
        if (ok) keep(r, h);
    }, in, core});
    if constexpr ((K & DT) != 0) L.push_back({name + " deserialize<T>(text)", [=](Res& r) {
        auto h = std::make_shared<Holder<T>>();
        bool ok = false;
        ending(r, [&] { h->v = persistence::deserialize<T>(*text); ok = true; said(r, ok); });
        if (ok) keep(r, h);
    }, in, core});
    if constexpr ((K & DR) != 0) L.push_back({name + " deserialize(temporary, obj)", [=](Res& r) {
        auto h = std::make_shared<Holder<T>>();
        std::string copy(text->data(), text->size());
        bool ok = false;
        ending(r, [&] { ok = persistence::deserialize(std::move(copy), h->v); said(r, ok); });
        if (ok) keep(r, h);
    }, in, core});
    if constexpr ((K & DRT) != 0) L.push_back({name + " deserialize<T>(temporary)", [=](Res& r) {
        auto h = std::make_shared<Holder<T>>();
        std::string copy(text->data(), text->size());
        bool ok = false;
        ending(r, [&] { h->v = persistence::deserialize<T>(std::move(copy)); ok = true; said(r, ok); });
        if (ok) keep(r, h);
    }, in, core});
    // the interface takes a non-constant document: every call gets one of its own, and has to leave it alone
    if constexpr ((K & DD) != 0) L.push_back({name + " deserialize(document, obj)", [=](Res& r) {
        auto h = std::make_shared<Holder<T>>();
        rapidjson::Document doc; doc.Parse(text->c_str());
        std::string before = dom_text(doc);
        bool ok = false;
        ending(r, [&] { ok = persistence::deserialize(doc, h->v); said(r, ok); });
        if (dom_text(doc) != before) r.head += " (document modified)";
        if (ok) keep(r, h);
    }, in, core});
    if constexpr ((K & DDT) != 0) L.push_back({name + " deserialize<T>(document)", [=](Res& r) {
        auto h = std::make_shared<Holder<T>>();
        rapidjson::Document doc; doc.Parse(text->c_str());
        std::string before = dom_text(doc);
        bool ok = false;
        ending(r, [&] { h->v = persistence::deserialize<T>(doc); ok = true; said(r, ok); });
        if (dom_text(doc) != before) r.head += " (document modified)";
        if (ok) keep(r, h);
    }, in, core});
}
template<typename T, unsigned K> void write_ops(std::vector<Op>& L, const std::string& name, std::shared_ptr<const T> v) {
    auto in = [v] { return obj_text<T>(*v); };
    bool core = K & CORE;
    if constexpr ((K & WB) != 0) L.push_back({name + " write_to_string(obj, text)", [=](Res& r) {
        auto s = std::make_shared<std::string>("untouched");
        ending(r, [&] { bool ok = persistence::write_to_string(*v, *s); said(r, ok); });
        OpsActive a(false);
        r.body = [s] { return *s; };
    }, in, core});
    if constexpr ((K & WT) != 0) L.push_back({name + " write_to_string(obj)", [=](Res& r) {
        auto s = std::make_shared<std::string>();
        bool ok = false;
        ending(r, [&] { *s = persistence::write_to_string(*v); ok = true; said(r, ok); });
        OpsActive a(false);
        if (ok) r.body = [s] { return *s; };
    }, in, core});
    if constexpr ((K & SB) != 0) L.push_back({name + " serialize_to_document(obj, document)", [=](Res& r) {
        auto d = std::make_shared<rapidjson::Document>();
        bool ok = false;
        ending(r, [&] { ok = persistence::serialize_to_document(*v, *d); said(r, ok); });
        OpsActive a(false);
        if (ok) r.body = [d] { return dom_text(*d); };
    }, in, core});
    if constexpr ((K & ST) != 0) L.push_back({name + " serialize_to_document(obj)", [=](Res& r) {
        auto d = std::make_shared<rapidjson::Document>();
        bool ok = false;
        ending(r, [&] { *d = persistence::serialize_to_document(*v); ok = true; said(r, ok); });
        OpsActive a(false);
        if (ok) r.body = [d] { return dom_text(*d); };
    }, in, core});
}
template<typename T> std::shared_ptr<const T> value_of(const char* text) {     // built by the reference reader
    auto p = std::make_shared<T>();
    Node n;
    DecCtx c; c.dom = true; c.root = &n;
    if (!jparse(text, n) || !Spec<T>::dec(n, *p, c)) { std::fprintf(stderr, "bad value: %s\n", text); std::abort(); }
    return p;
}
template<typename T, unsigned R, unsigned W> void both(std::vector<Op>& L, const std::string& name, const char* good) {
    if constexpr (R != 0) read_ops<T, R>(L, name, good);
    if constexpr (W != 0) write_ops<T, W>(L, name, value_of<T>(good));
}
template<typename F> void other_op(std::vector<Op>& L, const std::string& name, F f, bool core = false) {
    L.push_back({name, [f](Res& r) {
        auto s = std::make_shared<std::string>();
        bool ok = false;
        ending(r, [&] { *s = f(); ok = true; said(r, ok); });
        OpsActive a(false);
        if (ok) r.body = [s] { return *s; };
    }, [] { return std::string(); }, core});
}
