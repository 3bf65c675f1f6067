// C20: values without a JSON form are refused by every writer, from any depth.
#pragma once
#include "cmp.hpp"
#include "sharing.hpp"

// enumerates the places of an object that can hold a value without JSON form; fn() is called with each such value in place
using Fn = std::function<void(const std::string&)>;
template<typename T, typename = void> struct Bad { static void each(T&, const std::string&, const Fn&) {} };
template<typename T> struct Bad<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static void each(T& v, const std::string& p, const Fn& fn) {
        T save = v;
        using L = std::numeric_limits<T>;
        v = L::quiet_NaN(); fn(p + "=nan"); v = -L::quiet_NaN(); fn(p + "=-nan"); v = L::infinity(); fn(p + "=inf"); v = -L::infinity(); fn(p + "=-inf");
        v = save;
    }
};
template<> struct Bad<ymd> {
    static void each(ymd& v, const std::string& p, const Fn& fn) {
        ymd save = v;
        for (int y : { -1, 10000, -32767, 32767, 12345, -9999 }) { v = Spec<ymd>::mk(y, 6, 15); fn(p + "=year " + std::to_string(y)); }
        v = save;
    }
};
template<typename T> struct Bad<std::unique_ptr<T>> {
    static void each(std::unique_ptr<T>& v, const std::string& p, const Fn& fn) {
        std::unique_ptr<T> save = std::move(v);
        v = nullptr; fn(p + "=null");
        v = std::move(save);
        if (v) Bad<T>::each(*v, p + "*", fn);
    }
};
template<typename T> struct Bad<std::shared_ptr<T>> {
    static void each(std::shared_ptr<T>& v, const std::string& p, const Fn& fn) {
        std::shared_ptr<T> save = v;
        v = nullptr; fn(p + "=null");
        v = save;
        if (v) Bad<T>::each(*v, p + "*", fn);
    }
};
template<typename C> struct SeqBad { static void each(C& v, const std::string& p, const Fn& fn) { std::size_t i = 0; for (auto& x : v) { Bad<std::decay_t<decltype(x)>>::each(x, p + "/" + std::to_string(i), fn); ++i; } } };
template<typename T> struct Bad<std::vector<T>> : SeqBad<std::vector<T>> {};
template<> struct Bad<std::vector<bool>> { static void each(std::vector<bool>&, const std::string&, const Fn&) {} };
template<typename T, std::size_t N> struct Bad<std::array<T, N>> : SeqBad<std::array<T, N>> {};
template<typename T> struct Bad<std::set<T>> {
    static void each(std::set<T>& v, const std::string& p, const Fn& fn) {
        std::set<T> save;
        for (auto it = v.begin(); it != v.end();) { auto h = v.extract(it++); save.insert(std::move(h)); }
        // every element replaced by a bad one
        std::size_t i = 0;
        std::vector<typename std::set<T>::node_type> hs;
        while (!save.empty()) hs.push_back(save.extract(save.begin()));
        for (auto& h : hs) {
            T& x = h.value();
            Bad<T>::each(x, p + "/" + std::to_string(i++), [&](const std::string& q) {
                // the set holds the altered element (and the others if they can be ordered against it)
                std::set<T> t;
                t.insert(std::move(h));
                if (q.find("nan") == std::string::npos) for (auto& o : hs) if (o) t.insert(std::move(o));
                std::swap(v, t);
                fn(q);
                std::swap(v, t);
                std::size_t k = 0;
                (void)k;
                // give the nodes back: the altered one is identified by address
                for (auto it = t.begin(); it != t.end();) {
                    bool mine = &*it == &x;
                    auto n = t.extract(it++);
                    if (mine) h = std::move(n);
                    else for (auto& o : hs) if (!o && &o != &h) { o = std::move(n); break; }
                }
            });
        }
        for (auto& h : hs) v.insert(std::move(h));
    }
};
template<typename C> struct MapBad { static void each(C& v, const std::string& p, const Fn& fn) { for (auto& x : v) Bad<std::decay_t<decltype(x.second)>>::each(x.second, p + "/" + show(std::string(x.first)), fn); } };
template<typename K, typename T> struct Bad<std::map<K, T>> : MapBad<std::map<K, T>> {};
template<typename K, typename T> struct Bad<std::unordered_map<K, T>> : MapBad<std::unordered_map<K, T>> {};
template<typename A, typename B> struct Bad<std::pair<A, B>> { static void each(std::pair<A, B>& v, const std::string& p, const Fn& fn) { Bad<A>::each(v.first, p + "/0", fn); Bad<B>::each(v.second, p + "/1", fn); } };
template<typename... Ts> struct Bad<std::tuple<Ts...>> { static void each(std::tuple<Ts...>& v, const std::string& p, const Fn& fn) { int i = 0; std::apply([&](auto&... x) { (Bad<std::decay_t<decltype(x)>>::each(x, p + "/" + std::to_string(i++), fn), ...); }, v); } };
template<typename... Ts> struct Bad<std::variant<Ts...>> { static void each(std::variant<Ts...>& v, const std::string& p, const Fn& fn) { std::visit([&](auto& x) { Bad<std::decay_t<decltype(x)>>::each(x, p, fn); }, v); } };
template<typename C> struct BadV {
    C& o; const std::string& p; const Fn& fn;
    template<typename T, typename B> void req(const char* k, T B::* m) { Bad<T>::each(o.*m, p + "/" + k, fn); }
    template<typename T, typename B> void def(const char* k, T B::* m) { req(k, m); }
    template<typename T, typename B> void opt(const char* k, std::optional<T> B::* m) { if (o.*m) Bad<T>::each(*(o.*m), p + "/" + k, fn); }
};
template<typename C> struct Bad<C, std::enable_if_t<has_fields<C>::value>> { static void each(C& o, const std::string& p, const Fn& fn) { BadV<C> v{ o, p, fn }; C::fields(v); } };

template<typename T> void bad(Run& R, const std::string& name) {
    R.unit(name, [&R, name] {
        for (int level : { 0, 1, 2 }) {
            std::size_t n = Spec<T>::count(level), lim = R.thorough() ? 400 : 60;
            for (std::size_t i = 0; i < n && i < lim; ++i) {
                T v = Spec<T>::at(n <= lim ? i : i * n / lim, level);
                EncCtx c; Node d = Spec<T>::enc(v, c);
                if (!c.ok || node_count(d) > (R.thorough() ? 700u : 80u)) continue;
                std::string base = jtext(d);
                check_write<T>(R, name, v, false);       // the object itself can be written
                Bad<T>::each(v, "", [&](const std::string& where) {
                    if (R.stop()) return;
                    R.at(name, where + " in " + show(base, 200));
                    R.count(Run::hash(name + where + base));
                    R.extra(0, 1);
                    for (int mode = 0; mode < 6; ++mode) {
                        static const char* N[] = { "write_to_string(obj, str)", "write_to_string(obj)", "serialize_to_document(obj, doc)", "serialize_to_document(obj)", "write_to_string(obj, str) into an empty string", "write_to_string(obj, str) into a long string" };
                        std::string start = mode == 4 ? "" : mode == 5 ? std::string(300, 'q') : "\x01untouched", got = start;
                        int r = 2;
                        try {
                            if (mode == 0 || mode >= 4) r = persistence::write_to_string(v, got);
                            else if (mode == 1) { got = persistence::write_to_string(v); r = 1; }
                            else if (mode == 2) { rapidjson::Document doc; r = persistence::serialize_to_document(v, doc); if (r) got = persistence::document_to_string(doc); }
                            else { auto doc = persistence::serialize_to_document(v); got = persistence::document_to_string(doc); r = 1; }
                        } catch (const persistence::JsonSerializationError&) { r = mode == 1 || mode == 3 ? 0 : 2; }
                        catch (...) { r = 2; }
                        if (r == 2) { R.fail(std::string(N[mode]) + " fails through the wrong channel"); return; }
                        if (r) { R.fail(std::string(N[mode]) + " succeeds although " + where + " has no JSON form: " + show(got)); return; }
                        if (got != start) { R.fail(std::string(N[mode]) + " modifies the target string although it fails: " + show(got)); return; }
                    }
                });
                // and can still be written afterwards
                EncCtx c2; Node d2 = Spec<T>::enc(v, c2);
                if (!c2.ok || jtext(d2) != base) { R.fail_at(name, "harness: object not restored " + show(jtext(d2)) + " / " + show(base)); return; }
            }
        }
    });
}
