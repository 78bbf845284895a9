// Replays behaviours of spec/OptionCore.tla on opt::option<T>.
// usage: core TYPE SCRIPT   (script: "op a b ...", slots 1..; output: one JSON line per step)
#include "payload.hpp"

using namespace H;

template<class T, int NS> struct Pool {
    using O = opt::option<T>;
    static constexpr bool can_copy = copyable<T>;
    static constexpr bool can_move = std::is_move_constructible_v<T>;
    static constexpr bool can_assign = std::is_move_assignable_v<T>;
    static constexpr bool can_ca = can_copy && std::is_copy_assignable_v<T>;
    using P = PL<T>;
    struct Cell { unsigned char pre[16]; alignas(O) unsigned char buf[sizeof(O)]; unsigned char post[16]; };
    Cell cell[NS];
    unsigned tick = 0;
    std::string res, call;

    O& at(int i) { return *std::launder(reinterpret_cast<O*>(cell[i - 1].buf)); }
    void wipe(int i) {
        static const unsigned char pat[] = {0x00, 0xFF, 0xA5, 0x01};
        std::memset(cell[i - 1].buf, pat[tick++ % 4], sizeof(O));
    }
    Pool() {
        for (int i = 1; i <= NS; ++i) {
            std::memset(cell[i - 1].pre, 0x5C, 16); std::memset(cell[i - 1].post, 0xC5, 16);
            wipe(i); ::new (cell[i - 1].buf) O();
        }
    }
    ~Pool() { for (int i = 1; i <= NS; ++i) at(i).~O(); }
    int hole = 0;       // the option whose constructor is running
    template<class F> void remake(int i, F&& f) { at(i).~O(); wipe(i); hole = i; f(static_cast<void*>(cell[i - 1].buf)); hole = 0; }
    // fault injection: establish a content, then run one step with the k-th operation of T (or the callback) throwing
    void set(int i, int c) {
        if (c == 0) remake(i, [&](void* m) { ::new (m) O(); });
        else P::args(c == MOVED ? 1 : c, [&](auto&&... a) { remake(i, [&](void* m) { ::new (m) O(std::in_place, std::forward<decltype(a)>(a)...); }); });
        if constexpr (can_move) { if (c == MOVED) { T y(std::move(*at(i))); (void)y; } }
    }
    bool step(const Line& L) {
        bool ok = false;
        try { ok = run(L); } catch (const boom& b) {
            ok = true; res = b.id == token ? "[\"boom\"]" : "[\"another exception\"]";
            if (hole) { wipe(hole); ::new (cell[hole - 1].buf) O(); hole = 0; }
        }
        disarm();
        return ok;
    }

    void rval(int c) { res = "[\"val\"," + std::to_string(c) + "]"; }
    void rbool(bool b) { res = std::string("[\"bool\",") + (b ? "true" : "false") + "]"; }
    template<class X> void ropt_int(const opt::option<X>& o) { res = "[\"opt\"," + std::to_string(o.has_value() ? int(*o) : 0) + "]"; }
    void ropt(const O& o) { res = "[\"opt\"," + std::to_string(o.has_value() ? P::code(*o) : 0) + "]"; }
    void rself(bool b) { res = b ? "[\"self\"]" : "[\"other\"]"; }
    int calls = 0; int carg = 0; const char* ccat = "-";
    template<class X> int note(X&& x) { ++calls; carg = P::code(x); ccat = cat_of<X&&>::value; tick_cb(); (void)x; return carg; }
    void dflt() { ++calls; ccat = "default"; tick_cb(); }

    // everything the interface says about one option, folded into one code
    int observe(int i) {
        O& o = at(i); const O& c = o;
        const bool h = c.has_value();
        auto bad = [&](const char* m) { fail(std::string("incoherent: ") + m); };
        if (bool(c) != h || static_cast<bool>(o) != h || o.has_value() != h) bad("bool");
        if ((c == opt::none) == h || (opt::none == c) == h) bad("==none");
        if ((c != opt::none) != h || (opt::none != c) != h) bad("!=none");
        if ((c > opt::none) != h || (opt::none < c) != h || (c < opt::none) || (opt::none > c) || !(c >= opt::none) || !(opt::none <= c) || (c <= opt::none) == h || (opt::none >= c) == h) bad("<none");
        if ((o.ptr_or_null() != nullptr) != h || (c.ptr_or_null() != nullptr) != h) bad("ptr_or_null");
        if ((o.begin() != o.end()) != h || (c.begin() != c.end()) != h) bad("begin/end");
        if (o.end() - o.begin() != int(h) || c.end() - c.begin() != int(h)) bad("distance");
        int n = 0; for (auto&& x : o) { ++n; (void)x; } for (auto&& x : c) { ++n; (void)x; } if (n != 2 * int(h)) bad("range-for");
        bool threw = false; try { (void)c.value(); } catch (const opt::bad_access&) { threw = true; } if (threw == h) bad("value throws");
        threw = false; try { (void)o.value_or_throw(); } catch (const opt::bad_access&) { threw = true; } if (threw == h) bad("value_or_throw throws");
        threw = false; try { (void)std::move(o).value(); } catch (const std::exception&) { threw = true; } if (threw == h) bad("value&& throws");
        threw = false; try { (void)std::move(c).value_or_throw(); } catch (const std::exception&) { threw = true; } if (threw == h) bad("value const&& throws");
        if (o.has_value_and([](auto&&) { return true; }) != h || c.has_value_and([](auto&&) { return true; }) != h) bad("has_value_and");
        for (int k = 0; k < 16; ++k) if (cell[i - 1].pre[k] != 0x5C || cell[i - 1].post[k] != 0xC5) { bad("wrote outside of itself"); break; }
        if (!h) return 0;
        const T* p = c.ptr_or_null();
        const auto* lo = cell[i - 1].buf; const auto* q = reinterpret_cast<const unsigned char*>(p);
        if (q < lo || q + sizeof(T) > lo + sizeof(O)) bad("value is not inside the option");
        const T* ps[] = {o.ptr_or_null(), std::addressof(o.get()), std::addressof(c.get()), std::addressof(*o), std::addressof(*c),
            o.operator->(), c.operator->(), std::addressof(o.get_unchecked()), std::addressof(c.get_unchecked()),
            std::addressof(o.value()), std::addressof(c.value()), std::addressof(o.value_or_throw()), std::addressof(c.value_or_throw()),
            std::addressof(*o.begin()), std::addressof(*c.begin()), o.begin().operator->(), std::addressof(o.begin()[0])};
        for (auto* x : ps) if (x != p) { bad("accessors disagree on the object"); break; }
        { auto&& r1 = std::move(o).get(); auto&& r2 = std::move(c).get(); auto&& r3 = *std::move(o); auto&& r4 = *std::move(c); auto&& r5 = std::move(o).get_unchecked(); auto&& r6 = std::move(c).get_unchecked();
          auto&& r7 = std::move(o).value(); auto&& r8 = std::move(c).value(); auto&& r9 = std::move(o).value_or_throw();
          const T* qs[] = {std::addressof(r1), std::addressof(r2), std::addressof(r3), std::addressof(r4), std::addressof(r5), std::addressof(r6), std::addressof(r7), std::addressof(r8), std::addressof(r9)};
          for (auto* x : qs) if (x != p) { bad("rvalue accessors disagree on the object"); break; } }
        return P::code(*p);
    }

    template<class S> void dispatch_cat(const std::string& cat, O& o, S&& s) {
        const O& c = o;
        if (cat == "l") s(o); else if (cat == "cl") s(c);
        else if (cat == "r") { s(std::move(o)); }
        else { s(std::move(c)); }
    }

    bool run(const Line& L) {
        const std::string& op = L.op;
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        const int i = A(0);
        O& o = at(i); const O& co = o;
        calls = 0; carg = 0; ccat = "-"; res = "[\"void\"]";
        auto is = [&](const char* s) { return op == s; };
        auto starts = [&](const char* s) { return op.rfind(s, 0) == 0; };
        auto tail = [&](const char* s) { return op.substr(std::strlen(s)); };
        // -------- construction
        if (is("ctor_default")) { remake(i, [&](void* m) { arm(); ::new (m) O; }); }
        else if (is("ctor_none")) { remake(i, [&](void* m) { arm(); ::new (m) O(opt::none); }); }
        else if (is("ctor_braces")) { remake(i, [&](void* m) { arm(); ::new (m) O{}; }); }
        else if (is("ctor_inplace")) { remake(i, [&](void* m) { P::args(A(1), [&](auto&&... a) { arm(); ::new (m) O(std::in_place, std::forward<decltype(a)>(a)...); }); }); }
        else if (is("reset")) { arm(); o.reset(); }
        else if (is("assign_none")) { arm(); rself(&(o = opt::none) == &o); }
        else if (is("emplace")) { P::args(A(1), [&](auto&&... a) { arm(); T& r = o.emplace(std::forward<decltype(a)>(a)...); if (std::addressof(r) != o.ptr_or_null()) fail("emplace returned another object"); rval(P::code(r)); }); }
        else if (is("try_emplace")) { P::args(A(1), [&](auto&&... a) { arm(); T& r = o.try_emplace(std::forward<decltype(a)>(a)...); if (std::addressof(r) != o.ptr_or_null()) fail("try_emplace returned another object"); rval(P::code(r)); }); }
        else if (is("ptr_empty")) { arm(); res = (o.ptr_or_null() == nullptr && co.ptr_or_null() == nullptr) ? "[\"null\"]" : "[\"ptr\"]"; }
        else if (starts("has_value_and_")) {
            bool p = A(1) == 1; arm();
            dispatch_cat(tail("has_value_and_"), o, [&](auto&& s) { rbool(std::forward<decltype(s)>(s).has_value_and([&](auto&& x) { note(std::forward<decltype(x)>(x)); return p; })); });
        }
        else if (starts("inspect_")) {
            arm();
            dispatch_cat(tail("inspect_"), o, [&](auto&& s) {
                auto&& r = std::forward<decltype(s)>(s).inspect([&](auto&& x) { note(std::forward<decltype(x)>(x)); }); rself(std::addressof(r) == &co); });
        }
        else if (starts("map_or_else_") || starts("map_or_") || starts("map_") || starts("and_then_")) {
            return run_maps(L);
        }
        else if constexpr (can_move) { return run2(L); }
        else return false;
        return true;
    }
    bool run_maps(const Line& L) {
        const std::string& op = L.op; O& o = at(int(L.a.at(0)));
        auto us = op.rfind('_'); std::string kind = op.substr(us + 1); auto us2 = op.rfind('_', us - 1);
        std::string cat = op.substr(us2 + 1, us - us2 - 1), m = op.substr(0, us2);
        bool p = L.a.size() > 1 && L.a[1] == 1;
        arm();
        if (kind == "sink") {
            if constexpr (can_move) {
                auto f = [&](T&& x) { ++calls; carg = P::code(x); ccat = "r"; tick_cb(); T y(std::move(x)); return P::code(y) + 100; };
                if (m == "map") ropt_int(std::move(o).map(f));
                else if (m == "map_or") rval(std::move(o).map_or(55, f));
                else if (m == "map_or_else") rval(std::move(o).map_or_else([&] { dflt(); return 66; }, f));
                else if (m == "and_then") ropt_int(std::move(o).and_then([&](T&& x) { int r = f(std::move(x)); return p ? opt::option<int>(r) : opt::option<int>(); }));
                else return false;
                return true;
            } else return false;
        }
        if (m == "map") dispatch_cat(cat, o, [&](auto&& s) { auto r = std::forward<decltype(s)>(s).map([&](auto&& x) { return note(std::forward<decltype(x)>(x)) + 100; }); static_assert(std::is_same_v<decltype(r), opt::option<int>>); ropt_int(r); });
        else if (m == "map_or") dispatch_cat(cat, o, [&](auto&& s) { rval(std::forward<decltype(s)>(s).map_or(55, [&](auto&& x) { return note(std::forward<decltype(x)>(x)) + 100; })); });
        else if (m == "map_or_else") dispatch_cat(cat, o, [&](auto&& s) { rval(std::forward<decltype(s)>(s).map_or_else([&] { dflt(); return 66; }, [&](auto&& x) { return note(std::forward<decltype(x)>(x)) + 100; })); });
        else if (m == "and_then") dispatch_cat(cat, o, [&](auto&& s) { ropt_int(std::forward<decltype(s)>(s).and_then([&](auto&& x) { int r = note(std::forward<decltype(x)>(x)) + 100; return p ? opt::option<int>(r) : opt::option<int>(); })); });
        else return false;
        return true;
    }
    // operations that need T to be movable
    bool run2(const Line& L) {
        const std::string& op = L.op;
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        const int i = A(0);
        O& o = at(i);
        auto is = [&](const char* s) { return op == s; };
        if constexpr (can_move) {
            if (is("ctor_valr")) { T x(P::make(A(1))); remake(i, [&](void* m) { arm(); ::new (m) O(std::move(x)); }); }
            else if (is("ctor_move")) { O& s = at(A(1)); remake(i, [&](void* m) { arm(); ::new (m) O(std::move(s)); }); }
            else if (is("make_option_t")) { remake(i, [&](void* m) { P::args(A(1), [&](auto&&... a) { arm(); ::new (m) O(opt::make_option<T>(std::forward<decltype(a)>(a)...)); }); }); }
            else if (is("make_option_r")) { T x(P::make(A(1))); remake(i, [&](void* m) { arm(); ::new (m) O(opt::make_option(std::move(x))); }); }
            else if (is("take")) { arm(); O t = o.take(); ropt(t); Ev e = ev; t.reset(); ev = e; }
            else if (is("take_if")) { bool p = A(1) == 1; arm(); O t = o.take_if([&](auto&& x) { note(std::forward<decltype(x)>(x)); return p; }); ropt(t); }
            else if (op == "value_r" || op == "value_or_throw_r" || op == "get_r" || op == "deref_r" || op == "get_unchecked_r") {
                arm();
                try {
                    T y(op == "value_r" ? std::move(o).value() : op == "value_or_throw_r" ? std::move(o).value_or_throw() : op == "get_r" ? std::move(o).get() : op == "deref_r" ? *std::move(o) : std::move(o).get_unchecked());
                    rval(P::code(y));
                } catch (const opt::bad_access&) { res = "[\"throw\"]"; }
            }
            else if (is("value_or_r_r")) { T d(P::make(A(1))); arm(); T y(std::move(o).value_or(std::move(d))); rval(P::code(y)); }
            else if (is("value_or_construct_r")) { P::args(A(1), [&](auto&&... a) { arm(); T y(std::move(o).value_or_construct(std::forward<decltype(a)>(a)...)); rval(P::code(y)); }); }
            else if (is("filter_r")) { bool p = A(1) == 1; arm(); O r = std::move(o).filter([&](auto&& x) { note(std::forward<decltype(x)>(x)); return p; }); ropt(r); }
            else if (is("or_else_r")) { int v = A(1); arm(); O r = std::move(o).or_else([&] { dflt(); return mk_opt(v); }); ropt(r); }
            else if constexpr (can_assign) { return run3(L); }
            else return run4(L);
            return true;
        } else return false;
    }
    O mk_opt(int v) { if (v == 0) return O(); return P::args(v, [&](auto&&... a) { return O(std::in_place, std::forward<decltype(a)>(a)...); }); }
    bool run3(const Line& L) {
        const std::string& op = L.op;
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        const int i = A(0);
        O& o = at(i);
        auto is = [&](const char* s) { return op == s; };
        if constexpr (can_assign && can_move) {
            if (is("assign_r")) { T x(P::make(A(1))); arm(); rself(&(o = std::move(x)) == &o); }
            else if (is("move_assign")) { O& s = at(A(1)); arm(); rself(&(o = std::move(s)) == &o); }
            else if (is("swap")) { O& s = at(A(1)); arm(); o.swap(s); }
            else if (is("swap_free")) { O& s = at(A(1)); arm(); using std::swap; swap(o, s); }
            else if (is("take_into")) { O& s = at(A(1)); arm(); s = o.take(); }
            else return run4(L);
            return true;
        } else return false;
    }
    bool run4(const Line& L) {
        const std::string& op = L.op;
        auto A = [&](std::size_t k) { return int(L.a.at(k)); };
        const int i = A(0);
        O& o = at(i); const O& co = o;
        auto is = [&](const char* s) { return op == s; };
        auto starts = [&](const char* s) { return op.rfind(s, 0) == 0; };
        auto tail = [&](const char* s) { return op.substr(std::strlen(s)); };
        if constexpr (can_copy && can_move) {
            if (is("ctor_vall")) { const T x(P::make(A(1))); T y(P::make(A(1))); bool c = tick & 1; remake(i, [&](void* m) { arm(); if (c) ::new (m) O(x); else ::new (m) O(y); }); if (P::code(y) != A(1)) fail("source of a copy changed"); }
            else if (is("ctor_copy")) { O& s = at(A(1)); const O& cs = s; bool c = tick & 1; remake(i, [&](void* m) { arm(); if (c) ::new (m) O(s); else ::new (m) O(cs); }); }
            else if (is("make_option_l")) { const T x(P::make(A(1))); remake(i, [&](void* m) { arm(); ::new (m) O(opt::make_option(x)); }); }
            else if (op.rfind("value_or_construct_cl", 0) == 0) { P::args(A(1), [&](auto&&... a) { arm(); T y(co.value_or_construct(std::forward<decltype(a)>(a)...)); rval(P::code(y)); }); }
            else if (op == "value_or_cl_l") { T d(P::make(A(1))); arm(); T y(co.value_or(d)); rval(P::code(y)); if (P::code(d) != A(1)) fail("default changed"); }
            else if (op == "value_or_cl_r") { T d(P::make(A(1))); arm(); T y(co.value_or(std::move(d))); rval(P::code(y)); }
            else if (op == "value_or_r_l") { T d(P::make(A(1))); arm(); T y(std::move(o).value_or(d)); rval(P::code(y)); if (P::code(d) != A(1)) fail("default changed"); }
            else if (starts("value_or_throw_") || starts("value_") || starts("get_unchecked_") || starts("get_") || starts("deref_")) {
                auto us = op.rfind('_'); std::string cat = op.substr(us + 1), m = op.substr(0, us);
                arm();
                try {
                    dispatch_cat(cat, o, [&](auto&& s) {
                        if constexpr (std::is_same_v<decltype(s), O&&>) { fail("unexpected category"); }
                        else if (m == "value") { T y(std::forward<decltype(s)>(s).value()); rval(P::code(y)); }
                        else if (m == "value_or_throw") { T y(std::forward<decltype(s)>(s).value_or_throw()); rval(P::code(y)); }
                        else if (m == "get") { T y(std::forward<decltype(s)>(s).get()); rval(P::code(y)); }
                        else if (m == "deref") { T y(*std::forward<decltype(s)>(s)); rval(P::code(y)); }
                        else { T y(std::forward<decltype(s)>(s).get_unchecked()); rval(P::code(y)); } });
                } catch (const opt::bad_access&) { res = "[\"throw\"]"; }
            }
            else if (starts("filter_")) { bool p = A(1) == 1; arm();
                dispatch_cat(tail("filter_"), o, [&](auto&& s) { O r = std::forward<decltype(s)>(s).filter([&](auto&& x) { note(std::forward<decltype(x)>(x)); return p; }); ropt(r); }); }
            else if (is("or_else_cl")) { int v = A(1); arm(); O r = co.or_else([&] { dflt(); return mk_opt(v); }); ropt(r); }
            else if constexpr (can_ca) {
                if (is("assign_l")) { T x(P::make(A(1))); const T& cx = x; bool c = tick++ & 1; arm(); rself(&(c ? (o = x) : (o = cx)) == &o); if (P::code(x) != A(1)) fail("source of a copy changed"); }
                else if (is("copy_assign")) { O& s = at(A(1)); const O& cs = s; bool c = tick++ & 1; arm(); rself(&(c ? (o = s) : (o = cs)) == &o); }
                else if (starts("write_")) {
                    const T x(P::make(A(1))); std::string w = tail("write_"); arm();
                    if (w == "deref") *o = x; else if (w == "get") o.get() = x; else if (w == "unchecked") o.get_unchecked() = x;
                    else if (w == "value") o.value() = x; else if (w == "value_or_throw") o.value_or_throw() = x;
                    else if (w == "ptr") *o.ptr_or_null() = x; else if (w == "begin") *o.begin() = x;
                    else if (w == "arrow") *o.operator->() = x;
                    else if (w == "range") { for (auto& y : o) y = x; }
                    else if (w == "cb_inspect") o.inspect([&](T& y) { y = x; });
                    else if (w == "cb_map") (void)o.map([&](T& y) { y = x; return 0; });
                    else return false;
                }
                else return false;
            } else return false;
            return true;
        } else return false;
    }

    void print(bool ran) {
        std::string e;
        const Ev v = ev; const int nlive = int(live().size());
        std::string out = "{\"t\":[";
        for (int i = 1; i <= NS; ++i) out += (i > 1 ? "," : "") + std::to_string(observe(i));
        if (int(live().size()) != nlive) fail("observers created or destroyed objects");
        out += "],\"res\":" + res + ",\"call\":[" + std::to_string(calls) + "," + std::to_string(carg) + "," + js(ccat) + "],\"ev\":[" +
            std::to_string(v.vc) + "," + std::to_string(v.cc) + "," + std::to_string(v.ca) + "," + std::to_string(v.ma) + "," + std::to_string(v.mc) + "],\"live\":" + std::to_string(nlive);
        if (!ran) out += ",\"skip\":true";
        if (fired) out += ",\"fired\":true";
        if (!err().empty()) out += ",\"err\":" + js(err());
        out += "}\n";
        std::fwrite(out.data(), 1, out.size(), stdout);
        err().clear();
    }
};

// recording of histories chosen at random: operations that need a value are left out where there is none
static bool guarded = false;
static bool needs_value(const std::string& op) {
    auto st = [&](const char* s) { return op.rfind(s, 0) == 0; };
    return st("get_") || st("deref_") || (st("write_") && op != "write_range");
}
template<class T> int main_for(const std::vector<Line>& script) {
    {
        Pool<T, 3> pool;
        for (auto& l : script) {
            std::fflush(stdout);
            if (l.op == "~set") pool.set(int(l.a[0]), int(l.a[1]));
            else if (l.op == "~arm") { pending = int(l.a[0]); cb_pending = false; }
            else if (l.op == "~armcb") { pending = -1; cb_pending = true; }
            else if (guarded && (pool.at(int(l.a[0])).has_value() ? l.op == "ptr_empty" : needs_value(l.op))) std::printf("{\"left\":true}\n");
            else { bool ok = pool.step(l); pool.print(ok); }
        }
    }
    std::printf("{\"end\":true,\"live\":%d,\"err\":%s}\n", int(live().size()), js(err()).c_str());
    return 0;
}

using namespace H;
struct Entry { const char* name; int (*fn)(const std::vector<Line>&); const char* meta; };
// meta: "profile ledger events" -- profile: mark/keep x full/moveonly/immovable/noassign
#ifndef CORE_TYPES
#error CORE_TYPES
#endif
template<class> struct unparen; template<class T> struct unparen<void(T)> { using type = T; };
using S_1 = opt::sentinel<int, -1>; using S_3 = opt::sentinel<int, -1, 77, -300>;
using SF_1 = opt::sentinel_f<int, EqI, SetI, -1>; using SF_3 = opt::sentinel_f<int, EqI, SetI, -1, 77, -300>;
using MB_p = opt::member<Mem, &Mem::p>; using MB_b = opt::member<MemC, &MemC::f>;
#define X(N, T, META) {N, &main_for<typename unparen<void T>::type>, META},
static const Entry entries[] = { 
#include CORE_TYPES
};
#undef X

int main(int argc, char** argv) {
    if (argc == 2 && std::string(argv[1]) == "--list") { for (auto& e : entries) std::printf("%s %s\n", e.name, e.meta); return 0; }
    if (argc == 4 && std::string(argv[3]) == "guarded") { guarded = true; --argc; }
    for (auto& e : entries) if (argc == 3 && std::string(argv[1]) == e.name) return e.fn(read_script(argv[2]));
    return 2;
}
