// Controlled scheduler: one thread runs at a time, every lock, atomic, wait,
// notify, element operation and container operation is a scheduling point.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <semaphore.h>
#include <set>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "common.hpp"

namespace sch {
constexpr int MAXT = 8;
struct VC {
    long c[MAXT] = {0};
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
enum St { READY, MUT, CV, CVT, DONE, IDLE };
struct Th {
    sem_t sem;
    St st = IDLE;
    const void* on = nullptr;      // what it waits for
    bool timedout = false;
    VC vc;
    std::function<void()> fn;
    std::vector<const void*> held;
    int prio = 0;
    const char* op = "";
    bool elems = true;
};
extern Th th[MAXT];
extern int nth;                    // threads 1..nth; 0 is the main thread
extern int cur;
extern bool active;
extern long steps;
extern thread_local int me;
extern Rng* rng;
extern int mode, spurious;
extern int idle;      // thread that runs only when no other can
extern std::set<std::pair<std::string, std::string>> order;
extern std::unordered_map<const void*, std::string> lockname;
void point();
void block(St s, const void* on);
void pass();
inline int id() { return active ? cur : 0; }
inline VC& vc() { return th[id()].vc; }

// ---- happens-before race detection on one location
struct Loc {
    int wt = -1;
    long wc = 0;
    long r[MAXT] = {0};
};
extern std::unordered_map<const void*, Loc> locs;
inline void access(const void* p, bool write, const char* what)
{
    auto& l = locs[p];
    int t = id();
    auto& v = th[t].vc;
    bool bad = l.wt >= 0 && l.wt != t && v.c[l.wt] < l.wc;
    if (write)
        for (int i = 0; i < MAXT; ++i)
            if (i != t && v.c[i] < l.r[i]) bad = true;
    if (bad) fail("race", std::string("data race on ") + what);
    if (write) {
        l.wt = t;
        l.wc = v.c[t];
    } else
        l.r[t] = v.c[t];
}
inline void gone(const void* p) { locs.erase(p); }
inline void release(VC& s)
{
    s.join(vc());
    ++vc().c[id()];
}
inline void acquire(const VC& s) { vc().join(s); }

// ---- synchronisation objects
struct Mutex {
    int owner = -1;
    VC v;
    Mutex() = default;
    Mutex(const Mutex&) = delete;
    ~Mutex()
    {
        if (owner != -1) fail("race", "a lock was destroyed while held");
    }
    void lock()
    {
        point();
        if (owner == id()) fail("race", "a lock was taken twice by one operation");
        for (auto h : th[id()].held) {
            order.insert({lockname[h], lockname[this]});
            if (lockname[h] != lockname[this] && order.count({lockname[this], lockname[h]}))
                fail("race", "locks are taken in two different orders");
        }
        while (owner != -1) {
            if (!active) fail("race", "a lock is still held after the operations returned");
            block(MUT, this);
        }
        owner = id();
        acquire(v);
        th[id()].held.push_back(this);
    }
    bool try_lock()
    {
        point();
        if (owner != -1) return false;
        owner = id();
        acquire(v);
        th[id()].held.push_back(this);
        return true;
    }
    void unlock()
    {
        if (owner != id()) fail("race", "a lock was released by a thread that does not hold it");
        auto& h = th[id()].held;
        h.erase(std::find(h.begin(), h.end(), (const void*)this));
        release(v);
        owner = -1;
        for (int i = 1; i <= nth; ++i)
            if (th[i].st == MUT && th[i].on == this) th[i].st = READY;
        point();
    }
};
struct Cond {
    void notify(bool all)
    {
        point();
        std::vector<int> w;
        for (int i = 1; i <= nth; ++i)
            if ((th[i].st == CV || th[i].st == CVT) && th[i].on == this) w.push_back(i);
        if (w.empty()) return;
        if (all) {
            for (int i : w) th[i].st = READY;
        } else
            th[w[rng->below((long)w.size())]].st = READY;
        point();
    }
    void notify_all() { notify(true); }
    void notify_one() { notify(false); }
    template<class L>
    bool wait_(L& l, St s)
    {
        if (!active) fail("wake", "a single-threaded caller would wait for ever");
        point();
        // released and asleep in one step
        auto* m = l.mutex();
        if (m->owner != id()) fail("race", "wait without holding the lock");
        auto& h = th[id()].held;
        h.erase(std::find(h.begin(), h.end(), (const void*)m));
        release(m->v);
        m->owner = -1;
        for (int i = 1; i <= nth; ++i)
            if (th[i].st == MUT && th[i].on == m) th[i].st = READY;
        th[id()].timedout = false;
        block(s, this);
        bool to = th[id()].timedout;
        m->lock();
        return to;
    }
    template<class L>
    void wait(L& l)
    {
        wait_(l, CV);
    }
    template<class L, class P>
    void wait(L& l, P p)
    {
        while (!p()) wait_(l, CV);
    }
    template<class L, class D>
    std::cv_status wait_for(L& l, const D&)
    {
        return wait_(l, CVT) ? std::cv_status::timeout : std::cv_status::no_timeout;
    }
    template<class L, class D, class P>
    bool wait_for(L& l, const D&, P p)
    {
        while (!p())
            if (wait_(l, CVT)) return p();
        return true;
    }
    template<class L, class D>
    std::cv_status wait_until(L& l, const D& d)
    {
        return wait_for(l, d);
    }
    template<class L, class D, class P>
    bool wait_until(L& l, const D& d, P p)
    {
        return wait_for(l, d, p);
    }
};
inline bool acq(std::memory_order o) { return o != std::memory_order_relaxed && o != std::memory_order_release; }
inline bool rel(std::memory_order o) { return o != std::memory_order_relaxed && o != std::memory_order_acquire && o != std::memory_order_consume; }
template<class T>
struct Atomic {
    T x{};
    mutable VC v;
    Atomic() = default;
    constexpr Atomic(T i): x(i) {}
    Atomic(const Atomic&) = delete;
    T load(std::memory_order o = std::memory_order_seq_cst) const
    {
        point();
        if (acq(o)) acquire(v);
        return x;
    }
    void store(T n, std::memory_order o = std::memory_order_seq_cst)
    {
        point();
        x = n;
        if (rel(o)) release(v);
        else v = VC();
        point();
    }
    T exchange(T n, std::memory_order o = std::memory_order_seq_cst)
    {
        point();
        T r = x;
        if (acq(o)) acquire(v);
        x = n;
        if (rel(o)) release(v);
        return r;
    }
    bool compare_exchange_strong(T& e, T n, std::memory_order o = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst)
    {
        point();
        if (acq(o)) acquire(v);
        if (x == e) {
            x = n;
            if (rel(o)) release(v);
            point();
            return true;
        }
        e = x;
        return false;
    }
    bool compare_exchange_weak(T& e, T n, std::memory_order o = std::memory_order_seq_cst, std::memory_order f = std::memory_order_seq_cst)
    {
        if (rng->chance(10)) {
            e = load(f);
            return false;
        }
        return compare_exchange_strong(e, n, o, f);
    }
    template<class U = T>
    T fetch_add(U d, std::memory_order o = std::memory_order_seq_cst)
    {
        point();
        if (acq(o)) acquire(v);
        T r = x;
        x = (T)(x + d);
        if (rel(o)) release(v);
        return r;
    }
    template<class U = T>
    T fetch_sub(U d, std::memory_order o = std::memory_order_seq_cst) { return fetch_add(-d, o); }
    T operator++() { return fetch_add(1) + 1; }
    T operator--() { return fetch_add(-1) - 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--(int) { return fetch_add(-1); }
    operator T() const { return load(); }
    T operator=(T n)
    {
        store(n);
        return n;
    }
};

// ---- elements
extern std::unordered_set<const void*> alive;
struct Elem {
    long v;
    Elem(): v(-1) { born(); }
    Elem(long x): v(x) { born(); }
    Elem(const Elem& o): v((o.use(false), o.v)) { born(); }
    Elem(Elem&& o) noexcept: v((o.use(true), o.v))
    {
        o.v = -2;
        born();
    }
    Elem& operator=(const Elem& o)
    {
        o.use(false);
        use(true);
        v = o.v;
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept
    {
        o.use(true);
        use(true);
        if (&o != this) {
            v = o.v;
            o.v = -2;
        }
        return *this;
    }
    ~Elem()
    {
        access(this, true, "an element");
        if (!alive.erase(this)) fail("life", "destructor on dead storage");
        gone(this);
        v = -777;
    }
    void born() const
    {
        if (!alive.insert(this).second) fail("life", "construction over a live element");
        gone(this);
        access(this, true, "an element");
    }
    void use(bool w) const
    {
        point();
        if (!alive.count(this)) fail("life", "use of a dead element");
        access(this, w, "an element");
    }
};
// standard containers whose every operation is a tracked access to their header
struct Track {
    Track() { gone(this); }
    Track(const Track&) { gone(this); }
    Track& operator=(const Track&) { return *this; }
    ~Track() { gone(this); }
    void rd() const
    {
        point();
        access(this, false, "an internal container");
    }
    void wr() const
    {
        point();
        access(this, true, "an internal container");
    }
};
}   // namespace sch
namespace std {
template<class T>
class vc_vector: public vector<T>, public sch::Track {
    using B = vector<T>;

  public:
    using B::B;
    vc_vector() = default;
    vc_vector(const vc_vector& o): B((o.rd(), o)) {}
    vc_vector(vc_vector&& o) noexcept: B((o.wr(), std::move(static_cast<B&>(o)))) {}
    vc_vector& operator=(const vc_vector& o)
    {
        o.rd();
        wr();
        B::operator=(o);
        return *this;
    }
    vc_vector& operator=(vc_vector&& o) noexcept
    {
        o.wr();
        wr();
        B::operator=(std::move(static_cast<B&>(o)));
        return *this;
    }
    bool empty() const { rd(); return B::empty(); }
    size_t size() const { rd(); return B::size(); }
    size_t capacity() const { rd(); return B::capacity(); }
    void clear() { wr(); B::clear(); }
    void reserve(size_t n) { wr(); B::reserve(n); }
    void resize(size_t n) { wr(); B::resize(n); }
    void swap(vc_vector& o) { wr(); o.wr(); B::swap(o); }
    void push_back(const T& x) { wr(); B::push_back(x); wr(); }
    void push_back(T&& x) { wr(); B::push_back(std::move(x)); wr(); }
    template<class... A>
    decltype(auto) emplace_back(A&&... a) { wr(); return B::emplace_back(std::forward<A>(a)...); }
    template<class... A>
    auto insert(A&&... a) { wr(); return B::insert(std::forward<A>(a)...); }
    template<class... A>
    auto erase(A&&... a) { wr(); return B::erase(std::forward<A>(a)...); }
    void pop_back() { wr(); if (B::empty()) fail("life", "pop_back on an empty vector"); B::pop_back(); }
    decltype(auto) back() { rd(); if (B::empty()) fail("life", "back of an empty vector"); return B::back(); }
    decltype(auto) back() const { rd(); if (B::empty()) fail("life", "back of an empty vector"); return B::back(); }
    decltype(auto) front() { rd(); if (B::empty()) fail("life", "front of an empty vector"); return B::front(); }
    decltype(auto) front() const { rd(); if (B::empty()) fail("life", "front of an empty vector"); return B::front(); }
    decltype(auto) operator[](size_t i) { rd(); return B::operator[](i); }
    decltype(auto) operator[](size_t i) const { rd(); return B::operator[](i); }
    auto begin() { rd(); return B::begin(); }
    auto begin() const { rd(); return B::begin(); }
    auto end() { rd(); return B::end(); }
    auto end() const { rd(); return B::end(); }
    auto rbegin() { rd(); return B::rbegin(); }
    auto rbegin() const { rd(); return B::rbegin(); }
    auto rend() { rd(); return B::rend(); }
    auto rend() const { rd(); return B::rend(); }
};
template<class T>
void swap(vc_vector<T>& a, vc_vector<T>& b) { a.swap(b); }
template<class T>
class vc_queue: public queue<T>, public sch::Track {
    using B = queue<T>;

  public:
    vc_queue() = default;
    vc_queue(const vc_queue& o): B((o.rd(), o)) {}
    vc_queue(vc_queue&& o) noexcept: B((o.wr(), std::move(static_cast<B&>(o)))) {}
    vc_queue& operator=(const vc_queue& o)
    {
        o.rd();
        wr();
        B::operator=(o);
        return *this;
    }
    vc_queue& operator=(vc_queue&& o) noexcept
    {
        o.wr();
        wr();
        B::operator=(std::move(static_cast<B&>(o)));
        return *this;
    }
    bool empty() const { rd(); return B::empty(); }
    size_t size() const { rd(); return B::size(); }
    void push(const T& x) { wr(); B::push(x); wr(); }
    void push(T&& x) { wr(); B::push(std::move(x)); wr(); }
    template<class... A>
    decltype(auto) emplace(A&&... a) { wr(); return B::emplace(std::forward<A>(a)...); }
    void pop() { wr(); if (B::empty()) fail("life", "pop of an empty queue"); B::pop(); }
    void swap(vc_queue& o) { wr(); o.wr(); B::swap(o); }
    decltype(auto) front() { rd(); if (B::empty()) fail("life", "front of an empty queue"); return B::front(); }
    decltype(auto) front() const { rd(); if (B::empty()) fail("life", "front of an empty queue"); return B::front(); }
    decltype(auto) back() { rd(); return B::back(); }
};
template<class T>
using vc_atomic = ::sch::Atomic<T>;
using vc_atomic_bool = ::sch::Atomic<bool>;
using vc_mutex = ::sch::Mutex;
using vc_condition_variable = ::sch::Cond;
}   // namespace std

namespace sch {
Th th[MAXT];
int nth = 0, cur = 0;
bool active = false;
long steps = 0;
thread_local int me = 0;
Rng* rng = nullptr;
int mode = 0, spurious = 0, idle = 0;
std::set<std::pair<std::string, std::string>> order;
std::unordered_map<const void*, std::string> lockname;
std::unordered_map<const void*, Loc> locs;
std::unordered_set<const void*> alive;
static sem_t mainsem;

static int choose()
{
    std::vector<int> r;
    for (;;) {
        r.clear();
        for (int i = 1; i <= nth; ++i)
            if (th[i].st == READY && i != idle) r.push_back(i);
        bool only = r.empty() && idle && th[idle].st == READY;
        if (only) return idle;
        // timeouts and spurious wake-ups
        for (int i = 1; i <= nth; ++i) {
            if (th[i].st == CVT && (r.empty() || rng->below(100) < 3)) {
                th[i].timedout = true;
                th[i].st = READY;
                r.push_back(i);
            } else if ((th[i].st == CV || th[i].st == CVT) && !r.empty() && rng->below(1000) < spurious) {
                th[i].st = READY;
                r.push_back(i);
            }
        }
        if (!r.empty()) break;
        bool all = true;
        for (int i = 1; i <= nth; ++i)
            if (th[i].st != DONE) all = false;
        if (all) return 0;
        for (int i = 1; i <= nth; ++i)
            if (th[i].st == MUT) fail("race", "deadlock: operations wait for each other's locks");
        return 0;
    }
    if (mode == 0) return r[rng->below((long)r.size())];
    if (mode == 1) {       // stay with the current thread most of the time
        for (int i : r)
            if (i == cur && rng->below(100) < 70) return i;
        return r[rng->below((long)r.size())];
    }
    // priorities with random change points
    if (rng->below(100) < 6) th[cur].prio = (int)rng->below(1000000) - 1000000;
    int b = r[0];
    for (int i : r)
        if (th[i].prio > th[b].prio) b = i;
    return b;
}
static void go(int n)
{
    int old = cur;
    if (n == old) return;
    cur = n;
    if (n == 0) sem_post(&mainsem);
    else sem_post(&th[n].sem);
}
void point()
{
    if (!active) return;
    int t = cur;
    if (++steps > 20000) fail("hang", "the operations do not finish");
    int n = choose();
    if (n == t) return;
    go(n);
    sem_wait(&th[t].sem);
}
void block(St s, const void* on)
{
    int t = cur;
    if (++steps > 20000) fail("hang", "the operations do not finish");
    th[t].st = s;
    th[t].on = on;
    int n = choose();
    if (n == t) return;
    go(n);
    sem_wait(&th[t].sem);
}
static void body(int t)
{
    me = t;
    for (;;) {
        sem_wait(&th[t].sem);
        th[t].fn();
        th[t].st = DONE;
        go(choose());
    }
}
// run the given functions as concurrent threads until all are done (true) or nobody can run (false)
inline bool run(std::vector<std::function<void()>> fs, Rng& r)
{
    static int started = 0;
    rng = &r;
    if (!started) sem_init(&mainsem, 0, 0);
    nth = (int)fs.size();
    for (int i = 1; i <= nth; ++i) {
        th[i].fn = fs[i - 1];
        th[i].st = READY;
        th[i].held.clear();
        th[i].prio = (int)r.below(1000000);
        th[i].vc = VC();
        th[i].vc.join(th[0].vc);
        ++th[i].vc.c[i];
        if (i > started) {
            sem_init(&th[i].sem, 0, 0);
            std::thread(body, i).detach();
            started = i;
        }
    }
    ++th[0].vc.c[0];
    steps = 0;
    active = true;
    cur = 0;
    int n = choose();
    cur = n;
    sem_post(&th[n].sem);
    sem_wait(&mainsem);
    active = false;
    cur = 0;
    bool ok = true;
    for (int i = 1; i <= nth; ++i) {
        if (th[i].st != DONE) ok = false;
        else if (!th[i].held.empty()) fail("race", "a lock is still held after the operation returned");
        th[0].vc.join(th[i].vc);
    }
    ++th[0].vc.c[0];
    return ok;
}
}   // namespace sch
