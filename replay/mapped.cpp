// Histories of mapped-vector operations against a list of values with one position map per key space.
#include "common.hpp"
#include "MappedVector.hpp"
#include "StringMappedVector.hpp"
#include "MappedPointerVector.hpp"
#include "DualMappedVector.hpp"
#include "DualStringMappedVector.hpp"
#include "DualMappedPointerVector.hpp"
#include "mapOps.hpp"
#include <map>
#include <memory>
#include <optional>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace gmlc::containers;
static std::unordered_set<const void*> alive;
struct T {
    long v;
    T(): v(-1) { born(); }
    explicit T(long x): v(x) { born(); }
    T(const T& o): v(o.v) { o.check(); born(); }
    T(T&& o) noexcept: v(o.v) { o.check(); o.v = -555; born(); }
    T& operator=(const T& o) { check(); o.check(); v = o.v; return *this; }
    T& operator=(T&& o) noexcept { check(); o.check(); v = o.v; if (&o != this) o.v = -555; return *this; }
    ~T()
    {
        if (!alive.erase(this)) fail("life", "destructor on dead storage");
        v = -777;
    }
    void born() const { if (!alive.insert(this).second) fail("life", "construction over a live element"); }
    void check() const { if (!alive.count(this)) fail("life", "use of a dead element"); }
};
struct OK {   // ordered, not hashable
    long k;
    bool operator<(const OK& o) const { return k < o.k; }
};
static long nextval = 1;
template<class K> struct KeyGen;
template<> struct KeyGen<long> { static long make(long n) { return n * 7 - 20; } };
template<> struct KeyGen<OK> { static OK make(long n) { return OK{(n * 13) % 101}; } };
template<> struct KeyGen<std::string> {
    static std::string make(long n)
    {
        std::string s = "k" + std::to_string(n);
        if (n % 2) s += "_a_name_that_is_too_long_for_the_small_buffer";
        if (n % 5 == 0) s.insert(1, 1, '\0');
        if (n == 4) s.clear();
        return s;
    }
};
enum class Kind { mv, smv, mpv, dmv, dsv, dpv };
template<class C_, Kind KD_, class K1_, class K2_, bool STABLE_, bool RM_>
struct Tr {
    using C = C_;
    using K1 = K1_;
    using K2 = K2_;
    static constexpr Kind KD = KD_;
    static constexpr bool STABLE = STABLE_, RM = RM_;
    static constexpr bool ptr = KD == Kind::mpv || KD == Kind::dpv;
    static constexpr bool dual = KD == Kind::dmv || KD == Kind::dsv || KD == Kind::dpv;
};
template<class X>
struct Slot {
    using C = typename X::C;
    static constexpr Kind KD = X::KD;
    std::unique_ptr<C> c;
    std::vector<long> m;
    std::map<long, size_t> l[2];
    int keys = 40;
    template<class F> static auto with1(long n, F f) { auto k = std::make_unique<typename X::K1>(KeyGen<typename X::K1>::make(n)); return f(*k); }
    template<class F> static auto with2(long n, F f) { auto k = std::make_unique<typename X::K2>(KeyGen<typename X::K2>::make(n)); return f(*k); }
    static long val(const T* p)
    {
        if (p == nullptr) return -1000;
        p->check();
        return p->v;
    }
    template<class F>
    void look(const char* cat, int sp, long n, F key)
    {
        const C& k = *c;
        auto i = l[sp].find(n);
        std::string w = " key " + std::to_string(n) + " space " + std::to_string(sp);
        if constexpr (X::ptr) {
            const T* p = k.find(key);
            if (i == l[sp].end()) {
                if (p != nullptr) fail(cat, "an unbound key resolves:" + w);
            } else if (p != k[i->second]) fail(cat, "a bound key resolves to another element:" + w);
        } else {
            auto a = k.find(key);
            auto b = c->find(key);
            if ((a == k.end()) != (i == l[sp].end()) || (b == c->find(KeyNone())) != (i == l[sp].end()))
                fail(cat, (i == l[sp].end() ? "an unbound key resolves:" : "a bound key is not found:") + w);
            if (i != l[sp].end()) {
                if (&*a != &k[i->second] || &*b != &k[i->second]) fail(cat, "a bound key resolves to another element:" + w);
                if (val(&*a) != m[i->second]) fail(cat, "a bound key resolves to another value:" + w);
            }
        }
    }
    typename X::K1 KeyNone() { return KeyGen<typename X::K1>::make(99); }   // never inserted
    void verify(const char* cat)
    {
        const C& k = *c;
        REQUIRE(cat, (size_t)k.size() == m.size());
        size_t n = 0;
        for (auto it = k.begin(); it != k.end(); ++it, ++n) {
            REQUIRE(cat, n < m.size());
            if constexpr (X::ptr) REQUIRE(cat, val(it->get()) == m[n]);
            else REQUIRE(cat, val(&*it) == m[n]);
        }
        REQUIRE(cat, n == m.size());
        for (size_t i = 0; i < m.size(); ++i) {
            if constexpr (X::ptr) {
                REQUIRE(cat, val(k[i]) == m[i]);
                if constexpr (KD == Kind::dpv) REQUIRE(cat, k.at(i) == k[i]);
            } else {
                REQUIRE(cat, val(&k[i]) == m[i]);
                REQUIRE(cat, &(*c)[i] == &k[i] && &k.at(i) == &k[i] && &c->at(i) == &k[i]);
            }
        }
        if (!m.empty()) {
            if constexpr (X::ptr) REQUIRE(cat, c->back() == k[m.size() - 1]);
            else REQUIRE(cat, &c->back() == &k[m.size() - 1] && &k.back() == &k[m.size() - 1]);
        }
        if constexpr (X::ptr) REQUIRE(cat, k[m.size()] == nullptr && k[m.size() + 100] == nullptr);
        if constexpr (KD != Kind::mpv) {
            bool th = false;
            try { (void)k.at(m.size()); } catch (const std::out_of_range&) { th = true; }
            REQUIRE(cat, th);
        }
        for (long q = 0; q < keys; ++q) {
            with1(q, [&](auto& key) { look(cat, 0, q, key); return 0; });
            if constexpr (X::dual) with2(q, [&](auto& key) { look(cat, 1, q, key); return 0; });
        }
    }
    void each(Rng& r)
    {
        size_t n = 0;
        if constexpr (X::ptr) {
            c->apply([&](T* p) { REQUIRE("map", n < m.size() && val(p) == m[n]); ++n; });
            REQUIRE("map", n == m.size());
        } else {
            c->apply([&](const T& p) { REQUIRE("map", n < m.size() && val(&p) == m[n]); ++n; });
            REQUIRE("map", n == m.size());
            if (r.chance(30)) {
                note("modify all");
                c->modify([](T& p) { p.check(); p.v += 100000; });
                for (auto& x: m) x += 100000;
            }
            if (r.chance(30)) {
                note("transform all");
                c->transform([](const T& p) { p.check(); return T(p.v * 2 + 1); });
                for (auto& x: m) x = x * 2 + 1;
            }
        }
    }
    void rmIndex(size_t i)
    {
        if (i >= m.size()) return;
        bool erased = !X::STABLE || i + 1 == m.size();
        if (erased) m.erase(m.begin() + (long)i);
        for (auto& mp: l)
            for (auto it = mp.begin(); it != mp.end();) {
                if (it->second == i) it = mp.erase(it);
                else {
                    if (erased && it->second > i) --it->second;
                    ++it;
                }
            }
    }
    void step(Rng& r, const char*& cat)
    {
        long k1 = r.below(keys), k2 = r.below(keys), op = r.below(100);
        long v = nextval++;
        bool unull = r.chance(15);     // a null pointer handed over
        size_t n = m.size();
        std::string s1 = std::to_string(k1), s2 = std::to_string(k2);
        auto told = [&](std::optional<size_t> got, bool took) {
            REQUIRE("map", got.has_value() == took);
            if (took) REQUIRE("map", *got == n);
            if (took) m.push_back(v);
        };
        if (op < 30) {
            note("insert " + s1 + "," + s2);
            bool b1 = l[0].count(k1), b2 = l[1].count(k2);
            if constexpr (!X::dual) {
                int how = (int)r.below(X::ptr ? 4 : 3);
                T tmp(v);
                auto got = with1(k1, [&](auto& key) -> std::optional<size_t> {
                    if (how == 0) return c->insert(key, v);
                    if (how == 1) return c->insert(key, (const T&)tmp);
                    if constexpr (X::ptr) { if (how == 3) { auto u = unull ? std::unique_ptr<T>() : std::make_unique<T>(v); if (unull) v = -1000; return c->insert(key, std::move(u)); } }
                    return c->insert(key, std::move(tmp));
                });
                told(got, !b1);
                if (!b1) l[0][k1] = n;
            } else {
                bool took = !(b1 && b2);
                int how = (int)r.below(X::ptr ? 4 : 3);
                T tmp(v);
                auto got = with1(k1, [&](auto& a) { return with2(k2, [&](auto& b) -> std::optional<size_t> {
                    if (how == 0) return c->insert(a, b, v);
                    if (how == 1) return c->insert(a, b, (const T&)tmp);
                    if constexpr (X::ptr) { if (how == 3) { auto u = unull ? std::unique_ptr<T>() : std::make_unique<T>(v); if (unull) v = -1000; return c->insert(a, b, std::move(u)); } }
                    return c->insert(a, b, std::move(tmp));
                }); });
                told(got, took);
                if (took) {
                    if (KD == Kind::dmv) l[0][k1] = n; else l[0].emplace(k1, n);
                    if (KD == Kind::dpv) l[1].emplace(k2, n); else l[1][k2] = n;
                }
            }
        } else if (op < 40) {
            if constexpr (X::dual) {
                if (r.chance(50)) {
                    note("insert in space 0 " + s1);
                    bool b = l[0].count(k1);
                    std::optional<size_t> got;
                    with1(k1, [&](auto& a) { if constexpr (X::ptr) got = c->insert(a, nullptr, v); else got = c->insert(a, no_search, v); return 0; });
                    told(got, !b);
                    if (!b) l[0][k1] = n;
                } else {
                    note("insert in space 1 " + s2);
                    bool b = l[1].count(k2);
                    std::optional<size_t> got;
                    with2(k2, [&](auto& a) { got = c->insert(no_search, a, v); return 0; });
                    told(got, !b);
                    if (!b) l[1][k2] = n;
                }
            } else {
                note("insert without key");
                told(c->insert(no_search, v), true);
            }
        } else if (op < 43) {
            if constexpr (KD == Kind::dmv || KD == Kind::dsv) {
                note("insert without key");
                told(c->insert(no_search, no_search, v), true);
            }
        } else if (op < 58) {
            note("insert or assign " + s1 + "," + s2);
            if constexpr (!X::dual) {
                bool b = l[0].count(k1);
                size_t at = b ? l[0][k1] : n;
                int how = (int)r.below(X::ptr ? 4 : 3);
                T tmp(v);
                size_t got = with1(k1, [&](auto& key) -> size_t {
                    if (how == 0) return c->insert_or_assign(key, v);
                    if (how == 1) return c->insert_or_assign(key, (const T&)tmp);
                    if constexpr (X::ptr) { if (how == 3) { auto u = unull ? std::unique_ptr<T>() : std::make_unique<T>(v); if (unull) v = -1000; return c->insert_or_assign(key, std::move(u)); } }
                    return c->insert_or_assign(key, std::move(tmp));
                });
                REQUIRE("map", got == at);
                if (b) m[at] = v; else { m.push_back(v); l[0][k1] = n; }
            } else {
                int which = (int)r.below(4);
                size_t got = 0, at = n;
                if (which == 0) {
                    bool b = l[0].count(k1);
                    if (b) at = l[0][k1];
                    with1(k1, [&](auto& a) { if constexpr (X::ptr) got = c->insert_or_assign(a, nullptr, v); else got = c->insert_or_assign(a, no_search, v); return 0; });
                    if (!b) l[0][k1] = n;
                } else if (which == 1) {
                    bool b = l[1].count(k2);
                    if (b) at = l[1][k2];
                    with2(k2, [&](auto& a) { if constexpr (X::ptr) got = c->insert_or_assign(nullptr, a, v); else got = c->insert_or_assign(no_search, a, v); return 0; });
                    if (!b) l[1][k2] = n;
                } else {
                    if (r.chance(40) && !l[0].empty()) {     // two keys of one element
                        k1 = l[0].begin()->first;
                        for (auto& e: l[1]) if (e.second == l[0][k1]) { k2 = e.first; break; }
                    }
                    bool b = l[0].count(k1);
                    if (X::ptr) b = b && l[1].count(k2) && l[0][k1] == l[1][k2];
                    if (b) at = l[0][k1];
                    T tmp(v);
                    with1(k1, [&](auto& a) { return with2(k2, [&](auto& d) {
                        if constexpr (X::ptr) {
                            if (which == 3) { auto u = unull ? std::unique_ptr<T>() : std::make_unique<T>(v); if (unull) v = -1000; got = c->insert_or_assign(a, d, std::move(u)); }
                            else got = c->insert_or_assign(a, d, v);
                        } else {
                            if (which == 3) got = c->insert_or_assign(a, d, std::move(tmp));
                            else got = c->insert_or_assign(a, d, v);
                        }
                        return 0;
                    }); });
                    l[0][k1] = at;
                    l[1][k2] = at;
                }
                REQUIRE("map", got == at);
                if (at == n) m.push_back(v); else m[at] = v;
            }
        } else if (op < 74) {
            if constexpr (KD != Kind::smv && KD != Kind::dpv) {
                size_t i = r.chance(80) ? (size_t)r.below((long)n) : n + (size_t)r.below(3);
                if constexpr (!X::dual) {
                    note("add term " + s1 + " for index " + std::to_string(i));
                    bool ok = i < n && !l[0].count(k1);
                    bool got = with1(k1, [&](auto& a) { return c->addSearchTermForIndex(a, i); });
                    REQUIRE("map", got == ok);
                    if (ok) l[0][k1] = i;
                } else {
                    int which = (int)r.below(6);
                    note("add term, form " + std::to_string(which) + " " + s1 + "," + s2);
                    bool got = false, ok = false;
                    size_t at = i;
                    long k1b = r.below(keys), k2b = r.below(keys);
                    int into = 0;
                    if (which == 0) { ok = i < n; got = with1(k1, [&](auto& a) { return c->addSearchTermForIndex(a, i); }); }
                    else if (which == 1) { into = 1; ok = i < n; got = with2(k2, [&](auto& a) { return c->addSearchTermForIndex(a, i); }); }
                    else if (which == 2) {
                        ok = l[0].count(k1b);
                        if (ok) at = l[0][k1b];
                        got = with1(k1, [&](auto& a) { return with1(k1b, [&](auto& e) { return c->addSearchTerm(a, e); }); });
                    } else if (which == 3) {
                        into = 1;
                        ok = l[1].count(k2b);
                        if (ok) at = l[1][k2b];
                        got = with2(k2, [&](auto& a) { return with2(k2b, [&](auto& e) { return c->addSearchTerm(a, e); }); });
                    } else if (which == 4) {
                        into = 1;
                        ok = l[0].count(k1b);
                        if (ok) at = l[0][k1b];
                        got = with2(k2, [&](auto& a) { return with1(k1b, [&](auto& e) { return c->addSearchTerm(a, e); }); });
                    } else {
                        ok = l[1].count(k2b);
                        if (ok) at = l[1][k2b];
                        got = with1(k1, [&](auto& a) { return with2(k2b, [&](auto& e) { return c->addSearchTerm(a, e); }); });
                    }
                    long key = into ? k2 : k1;
                    if (l[into].count(key)) ok = false;
                    REQUIRE("map", got == ok);
                    if (ok) l[into][key] = at;
                }
            }
        } else if (op < 90) {
            if constexpr (X::RM) {
                cat = "del";
                int which = (int)r.below(X::dual ? 3 : 2);
                if (which == 0) {
                    size_t i = r.chance(90) ? (size_t)r.below((long)n) : n + (size_t)r.below(3);
                    note("remove index " + std::to_string(i));
                    c->removeIndex(i);
                    rmIndex(i);
                } else if (which == 1) {
                    note("remove key " + s1);
                    with1(k1, [&](auto& a) { c->remove(a); return 0; });
                    if (l[0].count(k1)) rmIndex(l[0][k1]);
                } else {
                    note("remove key of space 1 " + s2);
                    if constexpr (X::dual) with2(k2, [&](auto& a) { c->remove(a); return 0; });
                    if (l[1].count(k2)) rmIndex(l[1][k2]);
                }
            }
        } else if (op < 91) {
            note("clear");
            c->clear();
            m.clear();
            l[0].clear();
            l[1].clear();
        } else if (op < 93) {
            note("walk");
            each(r);
        } else if (op < 95) {
            if (n > 0) {
                long p = r.below((long)n);
                note("write through index " + std::to_string(p));
                if constexpr (X::ptr) { if ((*c)[(size_t)p]) { (*c)[(size_t)p]->v = v; m[(size_t)p] = v; } }
                else { (*c)[(size_t)p].v = v; m[(size_t)p] = v; }
            }
        }
    }
};
template<class X>
void history(Rng& r, int ops)
{
    using S = Slot<X>;
    using C = typename X::C;
    {
        S s[2];
        int keys = 4 + (int)r.below(36);
        for (auto& x: s) { x.c.reset(new C()); x.keys = keys; }
        for (int n = 0; n < ops; ++n) {
            S& x = s[r.below(2)];
            S& y = &x == &s[0] ? s[1] : s[0];
            const char* cat = "map";
            long op = r.below(100);
            if (op < 2) {
                note("move construct");
                std::unique_ptr<C> q(new C(std::move(*y.c)));
                y.c = std::move(q);
            } else if (op < 5) {
                note("move assign");
                *x.c = std::move(*y.c);
                x.m = y.m;
                x.l[0] = y.l[0];
                x.l[1] = y.l[1];
                y.m.clear(); y.l[0].clear(); y.l[1].clear();
                if (r.chance(50)) y.c->clear();
                else y.c.reset(new C());
            } else if (op < 10) {
                if constexpr (!X::ptr) {
                    if (op < 7) {
                        note("copy assign");
                        *x.c = *y.c;
                    } else {
                        note("copy construct");
                        x.c.reset(new C(*y.c));
                    }
                    x.m = y.m;
                    x.l[0] = y.l[0];
                    x.l[1] = y.l[1];
                }
            } else x.step(r, cat);
            x.verify(cat);
            y.verify("map");
        }
    }
    if (!alive.empty()) { alive.clear(); fail("life", "elements never destroyed"); }
}
constexpr auto ST = reference_stability::stable;
constexpr auto UN = reference_stability::unstable;
using Str = std::string;
#if KIND == 0
int variants() { return 9; }
void run_case(Rng& r, int v, int ops)
{
    alive.clear();
    switch (v) {
        case 0: history<Tr<MappedVector<T, long, UN>, Kind::mv, long, long, false, true>>(r, ops); break;
        case 1: history<Tr<MappedVector<T, OK, ST, 1>, Kind::mv, OK, long, true, true>>(r, ops); break;
        case 2: history<Tr<MappedVector<T, Str, ST>, Kind::mv, Str, long, true, true>>(r, ops); break;
        case 3: history<Tr<MappedVector<T, OK, UN>, Kind::mv, OK, long, false, true>>(r, ops); break;
        case 4: history<Tr<StringMappedVector<T, ST, 1>, Kind::smv, Str, long, true, true>>(r, ops); break;
        case 5: history<Tr<StringMappedVector<T, ST>, Kind::smv, Str, long, true, true>>(r, ops); break;
        case 6: history<Tr<StringMappedVector<T, UN>, Kind::smv, Str, long, false, false>>(r, ops); break;
        case 7: history<Tr<MappedPointerVector<T, Str>, Kind::mpv, Str, long, false, true>>(r, ops); break;
        default: history<Tr<MappedPointerVector<T, OK>, Kind::mpv, OK, long, false, true>>(r, ops); break;
    }
}
#elif KIND == 1
int variants() { return 8; }
void run_case(Rng& r, int v, int ops)
{
    alive.clear();
    switch (v) {
        case 0: history<Tr<DualMappedVector<T, long, Str, UN>, Kind::dmv, long, Str, false, true>>(r, ops); break;
        case 1: history<Tr<DualMappedVector<T, OK, Str, ST, 1>, Kind::dmv, OK, Str, true, true>>(r, ops); break;
        case 2: history<Tr<DualMappedVector<T, Str, OK, ST>, Kind::dmv, Str, OK, true, true>>(r, ops); break;
        case 3: history<Tr<DualStringMappedVector<T, long, ST, 1>, Kind::dsv, Str, long, true, true>>(r, ops); break;
        case 4: history<Tr<DualStringMappedVector<T, OK, ST>, Kind::dsv, Str, OK, true, true>>(r, ops); break;
        case 5: history<Tr<DualStringMappedVector<T, OK, UN>, Kind::dsv, Str, OK, false, false>>(r, ops); break;
        case 6: history<Tr<DualMappedPointerVector<T, Str, long>, Kind::dpv, Str, long, false, true>>(r, ops); break;
        default: history<Tr<DualMappedPointerVector<T, OK, Str>, Kind::dpv, OK, Str, false, true>>(r, ops); break;
    }
}
#else
int variants() { return 3; }
/** hash tables of unusual shapes: one bucket for everything, or far more buckets than elements */
template<class M>
auto shape(M& m, Rng& r, int) -> decltype(m.max_load_factor(), void())
{
    if (r.chance(40)) { m.max_load_factor(1000.0F); if (r.chance(30)) m.rehash(0); }
    else if (r.chance(30)) m.reserve(500);
}
template<class M>
void shape(M&, Rng&, long)
{
}
template<class M, class K>
void maps(Rng& r, int ops)
{
    {
    std::map<long, long> ref;
    M m;
    if (r.chance(50)) {     // a map made from a list of one element
        long v = nextval++;
        ref[7] = v;
        m = M{{KeyGen<K>::make(7), T(v)}};
    }
    shape(m, r, 0);
    for (int n = 0; n < ops; ++n) {
        long k = r.below(30);
        if (n == 0) { /* look at it as it was made */ }
        else if (r.chance(50)) { long v = nextval++; ref[k] = v; m.erase(KeyGen<K>::make(k)); m.emplace(KeyGen<K>::make(k), T(v)); }
        else if (r.chance(20)) { ref.erase(k); m.erase(KeyGen<K>::make(k)); }
        const M& cm = m;
        for (long q = 0; q < 30; ++q) {
            K key = KeyGen<K>::make(q);
            T def(-42 - q);
            auto i = ref.find(q);
            auto o = mapFind(cm, key);
            T d = mapFind(cm, key, def);
            REQUIRE("map", o.has_value() == (i != ref.end()));
            if (o) REQUIRE("map", o->v == i->second);
            REQUIRE("map", d.v == (i != ref.end() ? i->second : -42 - q));
            REQUIRE("map", def.v == -42 - q);
        }
        REQUIRE("map", m.size() == ref.size());
    }
    }
    if (!alive.empty()) { alive.clear(); fail("life", "elements never destroyed"); }
}
void run_case(Rng& r, int v, int ops)
{
    alive.clear();
    if (v == 0) maps<std::map<OK, T>, OK>(r, ops);
    else if (v == 1) maps<std::unordered_map<Str, T>, Str>(r, ops);
    else maps<std::map<Str, T>, Str>(r, ops);
}
#endif
