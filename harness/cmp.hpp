// Comparison of all reading and writing overloads of one concrete type with the reference model.
#pragma once
#include "core.hpp"
#include <persistence/exception.hpp>
#include "types.hpp"
#include "lib.hpp"
#include <persistence/write_all.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/serialize.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/parse.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/utility.hpp>

// 1: read, 0: refused through the proper channel, 2: anything else
template<typename T> int lib_read(int mode, const std::string& s0, T& x, bool& ran) {
    std::string s = padded(s0);
    ran = true;
    try {
        switch (mode) {
        case 0: return persistence::deserialize(s, x);
        case 1: x = persistence::deserialize<T>(s); return 1;
        case 2: { auto d = persistence::string_to_document(s); return persistence::deserialize(d, x); }
        case 3: { auto d = persistence::string_to_document(s); x = persistence::deserialize<T>(d); return 1; }
        case 4: return persistence::deserialize(padded(s), x);
        }
        return 2;
    } catch (const persistence::JsonDeserializationError&) { return mode == 1 || mode == 3 ? 0 : 2; }
    catch (const persistence::JsonParseError&) { return 2; }
    catch (...) { return 2; }
}
template<typename T> int lib_parse(int mode, const std::string& s0, T& x) {
    std::string s = padded(s0);
    try {
        if (mode == 0) return persistence::parse(s, x);
        x = persistence::parse<T>(s);
        return 1;
    } catch (const persistence::JsonParseError&) { return mode == 1 ? 0 : 2; }
    catch (...) { return 2; }
}
// the document is read by every overload as the reference says; returns whether it conforms
template<typename T, bool Parsable> bool check_read(Run& R, const std::string& name, Node doc, bool few = false) {
    std::string s = jtext(doc);
    R.at(name, show(s));
    bool conforms = false;
    for (int dom = 1; dom >= (Parsable ? 0 : 1); --dom) {
        T want{}; DecCtx c; c.dom = dom; c.root = &doc;
        bool ok = Spec<T>::dec(doc, want, c);
        if (dom) { conforms = ok; R.count(Run::hash(name + "|" + s), true); }
        for (int mode = 0; mode < (dom ? (few ? 1 : 5) : (few ? 1 : 2)); ++mode) {
            T x{}; bool ran = true; int r = 2;
            if (dom) r = lib_read<T>(mode, s, x, ran); else if constexpr (Parsable) r = lib_parse<T>(mode, s, x);
            std::string how = std::string(dom ? "deserialize" : "parse") + " (overload " + std::to_string(mode) + ")";
            if (r == 2) { R.fail(how + ": unexpected exception on " + show(s)); return conforms; }
            if (bool(r) != ok) { R.fail(how + (r ? " accepts the non-conforming document " : " refuses the conforming document ") + show(s)); return conforms; }
            EqCtx q; q.identity = dom;
            if (r && !Spec<T>::eq(want, x, q)) { R.fail(how + " yields another value than the document denotes: " + show(s)); return conforms; }
        }
    }
    return conforms;
}
// every writing overload gives exactly the reference text (or refuses)
template<typename T> bool check_write(Run& R, const std::string& name, const T& v, bool ordered = true) {
    EncCtx c;
    Node n = Spec<T>::enc(v, c);
    std::string want = jtext(n);
    R.at(name + " written", show(want));
    R.count(Run::hash(name + "|w|" + want + (c.ok ? "" : "!")), true);
    for (int mode = 0; mode < 4; ++mode) {
        static const char* N[] = { "write_to_string(obj, str)", "write_to_string(obj)", "serialize_to_document(obj, doc)", "serialize_to_document(obj)" };
        std::string got = "\x01untouched"; int r = 2;
        try {
            if (mode == 0) r = persistence::write_to_string(v, got);
            else if (mode == 1) { got = persistence::write_to_string(v); r = 1; }
            else if (mode == 2) { rapidjson::Document d; r = persistence::serialize_to_document(v, d); if (r) got = persistence::document_to_string(d); }
            else { auto d = persistence::serialize_to_document(v); got = persistence::document_to_string(d); r = 1; }
        } catch (const persistence::JsonSerializationError&) { r = mode == 1 || mode == 3 ? 0 : 2; }
        catch (...) { r = 2; }
        if (r == 2) { R.fail(std::string(N[mode]) + " fails through the wrong channel"); return false; }
        if (bool(r) != c.ok) { R.fail(std::string(N[mode]) + (r ? " succeeds for an object without a JSON form: " + show(got) : " refuses a representable object")); return false; }
        if (!r && got != "\x01untouched") { R.fail(std::string(N[mode]) + " fails but modifies the target string: " + show(got)); return false; }
        if (!r) continue;
        Node g;
        if (!jparse(got, g)) { R.fail(std::string(N[mode]) + " writes invalid JSON: " + show(got)); return false; }
        if (!node_equal(n, g, ordered)) { R.fail(std::string(N[mode]) + " writes " + show(got) + " instead of " + show(want)); return false; }
    }
    return true;
}
