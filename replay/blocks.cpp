// Histories of block-container operations against a list model.
#include "StableBlockVector.hpp"
#include "StableBlockDeque.hpp"
#include "common.hpp"
#include <deque>
#include <unordered_set>
#include <vector>
#include <memory>
#include <map>
using namespace gmlc::containers;
static std::unordered_set<const void*> alive;
struct T {
    long v;
    T(): v(-1) { born(); }
    explicit T(long x): v(x) { born(); }
    T(const T& o): v(o.v) { o.check(); born(); }
    T(T&& o) noexcept: v(o.v) { o.check(); born(); }
    T& operator=(const T& o) { check(); o.check(); v = o.v; return *this; }
    T& operator=(T&& o) noexcept { check(); o.check(); v = o.v; return *this; }
    ~T()
    {
        if (!alive.erase(this)) lost("destructor on dead storage");
        v = -777;
    }
    void born() const { if (!alive.insert(this).second) lost("construction over a live element"); }
    void check() const { if (!alive.count(this)) lost("use of a dead element"); }
    [[noreturn]] static void lost(const char* w)
    {
        printf("FAIL cat=life what=%s\n", w);
        fflush(stdout);
        _Exit(3);
    }
};
static std::map<void*, size_t> blocks;
template<class X>
struct Al {
    using value_type = X;
    X* allocate(size_t n)
    {
        auto* p = static_cast<X*>(::operator new(n * sizeof(X)));
        blocks[p] = n;
        return p;
    }
    void deallocate(X* p, size_t n)
    {
        auto i = blocks.find(p);
        if (i == blocks.end() || i->second != n) T::lost("wrong deallocate");
        blocks.erase(i);
        for (size_t k = 0; k < n; ++k)
            if (alive.count(p + k)) T::lost("block with live element released");
        ::operator delete(p);
    }
};
static long nextval = 1;
template<class C, bool DQ>
struct Slot {
    std::unique_ptr<C> c;
    std::deque<long> m;
    std::deque<const T*> a;   // addresses; nullptr: not yet known
    void verify(const char* cat)
    {
        const C& k = *c;
        REQUIRE(cat, k.size() == m.size());
        REQUIRE(cat, k.empty() == m.empty());
        for (size_t i = 0; i < m.size(); ++i) {
            const T* p = &k[i];
            if (!alive.count(p)) fail("life", "element " + std::to_string(i) + " is not alive");
            REQUIRE(cat, p->v == m[i]);
            REQUIRE("seq", &(*c)[i] == p && &c->at(i) == p && &k.at(i) == p);
            if (a[i] == nullptr) a[i] = p;
            REQUIRE("stab", a[i] == p);
        }
        bool th = false, th2 = false;
        try { (void)k.at(m.size()); } catch (const std::out_of_range&) { th = true; }
        try { (void)c->at(m.size() + 5); } catch (const std::out_of_range&) { th2 = true; }
        REQUIRE("seq", th && th2);
        if (!m.empty()) {
            REQUIRE("seq", &c->front() == &k[0] && &k.front() == &k[0]);
            REQUIRE("seq", &c->back() == &k[m.size() - 1] && &k.back() == &k[m.size() - 1]);
        }
    }
    void iterate(Rng& r)
    {
        const C& k = *c;
        size_t n = 0, n2 = 0;
        for (auto it = c->begin(); it != c->end(); ++it, ++n) {
            REQUIRE("iter", n < m.size());
            REQUIRE("iter", &*it == &k[n]);
        }
        REQUIRE("iter", n == m.size());
        for (auto it = k.begin(); it != k.end(); it++, ++n2) {
            REQUIRE("iter", n2 < m.size());
            REQUIRE("iter", &*it == &k[n2] && it->v == m[n2]);
        }
        REQUIRE("iter", n2 == m.size());
        REQUIRE("iter", k.cbegin() == k.begin() && k.cend() == k.end());
        REQUIRE("iter", (c->begin() == c->end()) == m.empty());
        if (m.empty()) return;
        auto it = c->begin();
        long pos = 0, sz = (long)m.size();
        for (int q = 0; q < 12; ++q) {
            long d = r.below(sz + 1);
            switch (r.below(4)) {       // steps of either sign
            case 0: it += (d - pos); break;
            case 1: it = it + (d - pos); break;
            case 2: it -= (pos - d); break;
            default: it = it - (pos - d); break;
            }
            pos = d;
            if (pos < sz) REQUIRE("iter", &*it == &k[pos]);
            REQUIRE("iter", (it == c->end()) == (pos == sz));
            REQUIRE("iter", (it == c->begin()) == (pos == 0));
            if (pos < sz && r.chance(50)) {
                auto o = it++;
                REQUIRE("iter", &*o == &k[pos]);
                ++pos;
                if (pos < sz) REQUIRE("iter", &*it == &k[pos]);
                REQUIRE("iter", (it == c->end()) == (pos == sz));
            }
            if (pos > 0 && r.chance(50)) {
                if (r.chance(50)) --it;
                else it--;
                --pos;
                REQUIRE("iter", &*it == &k[pos]);
            }
        }
    }
    void reset(size_t n)
    {
        a.assign(n, nullptr);
    }
};
template<class C, bool DQ>
void history(Rng& r, int ops, int bs)
{
    using S = Slot<C, DQ>;
    const int K = 3;
    {
        S s[K];
        for (auto& x: s) x.c.reset(new C());
        int big = r.chance(25) ? bs * 140 : bs * 6 + 10;
        if (r.chance(3)) big = bs * 300;
        int bias = (int)r.below(100);
        for (int n = 0; n < ops; ++n) {
            S& x = s[r.below(K)];
            S& y = s[r.below(K)];
            const char* cat = "seq";
            long op = r.below(100);
            if (r.chance(30)) op = bias < 50 ? 0 : (DQ ? 20 : 45);
            auto addb = [&](long v) { x.m.push_back(v); x.a.push_back(nullptr); };
            auto addf = [&](long v) { x.m.push_front(v); x.a.push_front(nullptr); };
            long rep = r.chance(12) ? r.below(big) : 1 + r.below(3);
            if ((long)x.m.size() + rep > big + 5) rep = 1;
            if (op < 20) {
                note("push_back x" + std::to_string(rep));
                for (long q = 0; q < rep; ++q) {
                    long v = nextval++;
                    T t(v);
                    switch (r.below(5)) {
                        case 0: x.c->push_back(t); break;
                        case 1: x.c->push_back(std::move(t)); break;
                        case 2: x.c->emplace_back(v); break;
                        case 3: x.c->emplace_back(); v = -1; break;
                        default:
                            if (x.m.empty()) { x.c->push_back(t); }
                            else { long p = r.below((long)x.m.size()); v = x.m[p]; x.c->push_back((*x.c)[p]); }
                    }
                    addb(v);
                }
            } else if (op < 40) {
                if constexpr (DQ) {
                    note("push_front x" + std::to_string(rep));
                    for (long q = 0; q < rep; ++q) {
                        long v = nextval++;
                        T t(v);
                        switch (r.below(5)) {
                            case 0: x.c->push_front(t); break;
                            case 1: x.c->push_front(std::move(t)); break;
                            case 2: x.c->emplace_front(v); break;
                            case 3: x.c->emplace_front(); v = -1; break;
                            default:
                                if (x.m.empty()) { x.c->push_front(t); }
                                else { long p = r.below((long)x.m.size()); v = x.m[p]; x.c->push_front((*x.c)[p]); }
                        }
                        addf(v);
                    }
                }
            } else if (op < 52) {
                note("pop_back x" + std::to_string(rep));
                for (long q = 0; q < rep; ++q) {
                    x.c->pop_back();
                    if (!x.m.empty()) { x.m.pop_back(); x.a.pop_back(); }
                }
            } else if (op < 64) {
                if constexpr (DQ) {
                    note("pop_front x" + std::to_string(rep));
                    for (long q = 0; q < rep; ++q) {
                        x.c->pop_front();
                        if (!x.m.empty()) { x.m.pop_front(); x.a.pop_front(); }
                    }
                }
            } else if (op < 68) {
                note("clear");
                x.c->clear();
                x.m.clear();
                x.a.clear();
            } else if (op < 72) {
                note("shrink_to_fit");
                x.c->shrink_to_fit();
            } else if (op < 77) {
                long k = r.chance(50) ? r.below(big) : r.below(bs * 2 + 2);
                note("assign range of " + std::to_string(k) + " over " + std::to_string(x.m.size()));
                std::vector<T> src;
                std::deque<long> want;
                for (long q = 0; q < k; ++q) { src.emplace_back(nextval); want.push_back(nextval++); }
                if (r.chance(50)) x.c->assign(src.begin(), src.end());
                else x.c->move_assign(src.begin(), src.end());
                size_t keep = std::min(x.m.size(), want.size());
                x.m = want;
                x.a.resize(keep);
                x.a.resize(want.size(), nullptr);
            } else if (op < 81) {
                long k = r.chance(50) ? r.below(big) : bs * r.below(4);
                note("sized constructor " + std::to_string(k));
                long v = nextval++;
                if (r.chance(50)) x.c.reset(new C((size_t)k, T(v)));
                else { x.c.reset(new C((size_t)k)); v = -1; }
                x.m.assign(k, v);
                x.reset(k);
            } else if (op < 85) {
                note("copy construct");
                cat = "copy";
                std::unique_ptr<C> c2(new C(static_cast<const C&>(*y.c)));
                if (&x != &y) { x.c = std::move(c2); x.m = y.m; x.reset(x.m.size()); }
            } else if (op < 89) {
                note(&x == &y ? "self assignment" : "copy assign");
                cat = "copy";
                *x.c = static_cast<const C&>(*y.c);
                x.m = y.m;
                size_t keep = std::min(x.a.size(), x.m.size());
                x.a.resize(keep);
                x.a.resize(x.m.size(), nullptr);
            } else if (op < 93) {
                note("move construct");
                cat = "copy";
                std::unique_ptr<C> c2(new C(std::move(*y.c)));
                if (r.chance(30)) { y.m.clear(); y.a.clear(); auto sv = std::move(c2); S z; z.c = std::move(sv); }
                else if (&x != &y) { x.c = std::move(c2); x.m = std::move(y.m); x.a = std::move(y.a); y.m.clear(); y.a.clear(); }
                else { y.m.clear(); y.a.clear(); }
            } else if (op < 97) {
                if (&x != &y) {
                    note("move assign");
                    cat = "copy";
                    *x.c = std::move(*y.c);
                    x.m = std::move(y.m);
                    x.a = std::move(y.a);
                    y.m.clear();
                    y.a.clear();
                }
            } else {
                note("write through index");
                if (!x.m.empty()) {
                    long p = r.below((long)x.m.size());
                    x.m[p] = nextval++;
                    (*x.c)[p].v = x.m[p];
                }
            }
            x.verify(cat);
            if (&x != &y) y.verify("copy");
            x.iterate(r);
            y.iterate(r);
        }
    }
    if (!alive.empty()) { alive.clear(); fail("life", "elements never destroyed"); }
    if (!blocks.empty()) { blocks.clear(); fail("life", "blocks never released"); }
}
#if KIND == 0
template<unsigned N> using CT = StableBlockVector<T, N, Al<T>>;
constexpr bool DQ = false;
#else
template<unsigned N> using CT = StableBlockDeque<T, N, Al<T>>;
constexpr bool DQ = true;
#endif
int variants() { return 5; }
void run_case(Rng& r, int v, int ops)
{
    alive.clear();
    blocks.clear();
    switch (v) {
        case 0: history<CT<0>, DQ>(r, ops, 1); break;
        case 1: history<CT<1>, DQ>(r, ops, 2); break;
        case 2: history<CT<2>, DQ>(r, ops, 4); break;
        case 3: history<CT<3>, DQ>(r, ops, 8); break;
        default: history<CT<5>, DQ>(r, ops, 32); break;
    }
}
