// Random histories of StackBuffer (KIND 0) and CircularBuffer (KIND 1), owning (variant 0) and raw (variant 1),
// against a sequence of byte strings.  Sanitizers watch the memory.
#include "common.hpp"
#include <deque>
#include <memory>
#include <vector>
#if KIND == 0
#include "StackBuffer.hpp"
using Own = gmlc::containers::StackBuffer;
using Raw = gmlc::containers::StackBufferRaw;
static const char* MAIN = "stack";
#else
#include "CircularBuffer.hpp"
using Own = gmlc::containers::CircularBuffer;
using Raw = gmlc::containers::CircularBufferRaw;
static const char* MAIN = "queue";
#endif
using uc = unsigned char;
using Blk = std::vector<uc>;
struct RawBox {
    std::unique_ptr<uc[]> mem;
    Raw r;
    explicit RawBox(int n): mem(new uc[n]), r(mem.get(), n) {}
};
template<class C> struct S {
    C* c = nullptr;
    std::deque<Blk> m;       // taken from the back (stack) or the front (queue)
    int cap = 0;
    const char* cat = MAIN;  // a copy, move or resize since the content was last empty?
};
static uc nextbyte = 1;
template<class C> void queries(S<C>& s)
{
    REQUIRE(s.cat, s.c->empty() == s.m.empty());
    REQUIRE(s.cat, s.c->capacity() == s.cap);
    int want = s.m.empty() ? 0 : (int)(KIND == 0 ? s.m.back() : s.m.front()).size();
    REQUIRE(s.cat, s.c->nextDataSize() == want);
#if KIND == 0
    REQUIRE(s.cat, s.c->getCurrentCount() == (int)s.m.size());
    long used = 0;
    for (auto& b : s.m) used += (long)b.size() + 8;
    for (int k = 0; k < 3; ++k) {
        static const int d[3] = {1, 5, 17};
        if (s.c->isSpaceAvailable(d[k])) REQUIRE(s.cat, used + 8 + d[k] <= s.cap);
    }
#endif
    if (s.m.empty()) s.cat = MAIN;
}
template<class C> bool push(Rng& r, S<C>& s, int n)
{
    std::unique_ptr<uc[]> b(n > 0 ? new uc[n] : nullptr);
    for (int i = 0; i < n; ++i) b[i] = nextbyte++;
    bool fits = s.c->isSpaceAvailable(n);
    bool ok = s.c->push(b.get(), n);
    note("push " + std::to_string(n) + (ok ? " accepted" : " refused"));
    REQUIRE(s.cat, ok == (n > 0 && fits));
    if (ok) s.m.emplace_back(b.get(), b.get() + n);
    return ok;
}
template<class C> void pop(Rng& r, S<C>& s, int slack)
{
    if (s.m.empty()) {
        uc x;
        REQUIRE(s.cat, s.c->pop(&x, 1) == 0);
        return;
    }
    Blk want = KIND == 0 ? s.m.back() : s.m.front();
    int n = (int)want.size();
    int room = n + slack < 0 ? 0 : n + slack;
    std::unique_ptr<uc[]> t(new uc[room]);
    for (int i = 0; i < room; ++i) t[i] = 0xEE;
    int got = s.c->pop(t.get(), room);
    note("pop into " + std::to_string(room) + " -> " + std::to_string(got));
    if (room < n) {
        REQUIRE(s.cat, got == -n);
        for (int i = 0; i < room; ++i) REQUIRE(s.cat, t[i] == 0xEE);
        return;
    }
    REQUIRE(s.cat, got == n);
    for (int i = 0; i < n; ++i) REQUIRE(s.cat, t[i] == want[i]);
    for (int i = n; i < room; ++i) REQUIRE("mem", t[i] == 0xEE);
    if (KIND == 0) s.m.pop_back();
    else s.m.pop_front();
}
template<class C> void basic(Rng& r, S<C>& s, int op)
{
    if (op < 40) {
        // often exactly what is left, so that boundary positions are hit
        int n = 1 + (int)r.below(r.chance(50) ? 6 : 30);
        if (r.chance(35)) {
            int best = 0;
            for (int k = 1; k <= s.cap; ++k)
                if (s.c->isSpaceAvailable(k)) best = k;
            n = best + (int)r.below(3) - 1 - (r.chance(40) ? (int)r.below(6) : 0);
        }
        push(r, s, n);
    } else if (op < 44) {
        REQUIRE(s.cat, !s.c->push(nullptr, 3));
    } else if (op < 80) {
        pop(r, s, r.chance(80) ? (int)r.below(3) : -(int)(1 + r.below(4)));
    } else if (op < 83) {
        note("clear");
        s.c->clear();
        s.m.clear();
    } else {
#if KIND == 0
        note("reverse");
        s.c->reverse();
        std::deque<Blk> q(s.m.rbegin(), s.m.rend());
        s.m = q;
#endif
    }
}
template<class C> void drain(Rng& r, S<C>& s)
{
    while (!s.m.empty()) pop(r, s, 0);
    queries(s);
    uc x;
    REQUIRE(s.cat, s.c->pop(&x, 1) == 0);
}
static int size(Rng& r)
{
    return (int)r.below(r.chance(50) ? 40 : 140);
}
static void owning(Rng& r, int ops)
{
    S<Own> s[2];
    for (auto& x : s) {
        int n = size(r);
        if (r.chance(20)) { x.c = new Own(); x.cap = 0; }
        else { x.c = new Own(n); x.cap = n; }
        note("capacity " + std::to_string(x.cap));
    }
    for (int k = 0; k < ops; ++k) {
        auto& x = s[r.below(2)];
        auto& y = &x == &s[0] ? s[1] : s[0];
        if (g_verbose) note(&x == &s[0] ? "buffer 0:" : "buffer 1:");
        int op = (int)r.below(130);
        if (op < 92) basic(r, x, op);
        else if (op < 108) {
            int n = r.chance(40) ? x.cap + (int)r.below(21) - 10 : size(r);
            if (n < 0) n = 0;
            note("resize " + std::to_string(n));
            x.cat = "copy";
            try {
#if KIND == 0
                REQUIRE("copy", x.c->resize(n));
#else
                x.c->resize(n);
#endif
                x.cap = n;
            }
            catch (const std::exception&) {
                note("  threw");
                REQUIRE("copy", !x.m.empty());
            }
            if (x.m.empty()) x.cat = "copy";
        } else if (op < 113) {
            note("copy construct from the other");
            auto* c = new Own(static_cast<const Own&>(*y.c));
            delete x.c;
            x.c = c; x.m = y.m; x.cap = y.cap; x.cat = y.cat = "copy";
        } else if (op < 118) {
            note("copy assign from the other");
            *x.c = static_cast<const Own&>(*y.c);
            x.m = y.m; x.cap = y.cap; x.cat = y.cat = "copy";
        } else if (op < 122) {
            note("move construct from the other");
            auto* c = new Own(std::move(*y.c));
            delete x.c;
            x.c = c; x.m = y.m; x.cap = y.cap; x.cat = y.cat = "copy";
            y.m.clear(); y.cap = 0;
        } else if (op < 126) {
            note("move assign from the other");
            *x.c = std::move(*y.c);
            x.m = y.m; x.cap = y.cap; x.cat = y.cat = "copy";
            y.m.clear(); y.cap = 0;
        } else {
#if KIND == 0
            note("swap");
            x.c->swap(*y.c);
            std::swap(x.m, y.m);
            std::swap(x.cap, y.cap);
#endif
        }
        queries(x);
        queries(y);
#if KIND == 0
        REQUIRE(x.cat, x.c->rawBlockCapacity() >= x.cap);
        if (x.m.empty() && r.chance(10)) {   // everything the size provides is usable again
            if (x.cap > 8) REQUIRE("copy", x.c->isSpaceAvailable(x.cap - 8));
            REQUIRE("copy", !x.c->isSpaceAvailable(x.cap - 7));
        }
#endif
        if (r.chance(5)) { note("drain"); drain(r, x); }
    }
    for (auto& x : s) { note("final drain"); drain(r, x); delete x.c; }
}
static void raw(Rng& r, int ops)
{
    std::unique_ptr<RawBox> b[2];
    S<Raw> s[2];
    for (int i = 0; i < 2; ++i) {
        int n = size(r);
        b[i].reset(new RawBox(n));
        s[i].c = &b[i]->r;
        s[i].cap = n;
    }
    for (int k = 0; k < ops; ++k) {
        int w = (int)r.below(2);
        auto& x = s[w];
        int op = (int)r.below(94);
        if (op < 92) basic(r, x, op);
        else {
#if KIND == 0
            note("swap");
            s[0].c->swap(*s[1].c);
            std::swap(s[0].m, s[1].m);
            std::swap(s[0].cap, s[1].cap);
#endif
        }
        queries(s[0]);
        queries(s[1]);
        if (r.chance(3)) drain(r, x);
    }
    drain(r, s[0]);
    drain(r, s[1]);
}
int variants() { return 2; }
void run_case(Rng& r, int v, int ops)
{
    nextbyte = 1;
    if (v == 0) owning(r, ops);
    else raw(r, ops);
}
