// Random schedules of concurrent operations on the queues and the air lock,
// checked for linearizability, lost wake-ups, races and element lifetimes.
// KIND: 0 SimpleQueue, 1 BlockingQueue, 2 BlockingPriorityQueue, 3 AirLock
#include "sched.hpp"
#define vector vc_vector
#define queue vc_queue
#define atomic vc_atomic
#define atomic_bool vc_atomic_bool
#define mutex vc_mutex
#define condition_variable vc_condition_variable
#include "SimpleQueue.hpp"
#include "BlockingQueue.hpp"
#include "BlockingPriorityQueue.hpp"
#include "AirLock.hpp"
#undef vector
#undef queue
#undef atomic
#undef atomic_bool
#undef mutex
#undef condition_variable
using namespace gmlc::containers;
using sch::Elem;
using L = std::vector<long>;
struct Op {
    int th;
    std::string name;
    L in;             // pushed values
    bool prio = false;
    char kind = 0;    // p push, t take, k peek, c clear, L try_load, w load, l loaded?, n size, m empty
    bool some = false;
    long out = 0;
    long inv = 0, res = -1;
};
static std::vector<Op> ops;
static long now = 0;
static long nextval = 1;
static size_t begin_op(int t, const std::string& n, char k, L in = {}, bool prio = false)
{
    Op o;
    o.th = t;
    o.name = n;
    o.kind = k;
    o.in = in;
    o.prio = prio;
    o.inv = ++now;
    ops.push_back(o);
    return ops.size() - 1;
}
static void end_op(size_t i, bool some = false, long out = 0)
{
    ops[i].some = some;
    ops[i].out = out;
    ops[i].res = ++now;
}
struct Spec {
    std::deque<long> q, p;
    bool operator==(const Spec& o) const { return q == o.q && p == o.p; }
    std::string key() const
    {
        std::string s;
        for (auto x : p) s += std::to_string(x) + ",";
        s += "|";
        for (auto x : q) s += std::to_string(x) + ",";
        return s;
    }
    bool apply(const Op& o)
    {
        switch (o.kind) {
            case 'p':
                for (auto x : o.in) (o.prio ? p : q).push_back(x);
                return true;
            case 't':
            case 'k': {
                auto& d = p.empty() ? q : p;
#if KIND == 1 || KIND == 2
                // peek is exact at rest; while pushes are in progress the priority queue's peek still misses nothing
                if (o.kind == 'k' && o.th != 0) return KIND == 1 || o.some || d.empty();
#endif
                if (!o.some) return d.empty();
                if (d.empty() || d.front() != o.out) return false;
                if (o.kind == 't') d.pop_front();
                return true;
            }
            case 'c':
                q.clear();
                p.clear();
                return true;
            case 'n': return (long)(q.size() + p.size()) == o.out;
            case 'm': return (q.empty() && p.empty()) == o.some;
            case 'L':
                if (o.some != q.empty()) return false;
                if (o.some) q.push_back(o.in[0]);
                return true;
            case 'w':
                if (!q.empty()) return false;
                q.push_back(o.in[0]);
                return true;
            case 'l': return o.some == !q.empty();
        }
        return false;
    }
};
// unfinished operations (res < 0) may or may not have taken effect
static std::set<std::string> seen;
static std::vector<char> done;
static bool lin(Spec s)
{
    std::string k;
    bool all = true;
    for (size_t i = 0; i < ops.size(); ++i) {
        k += done[i] ? '1' : '0';
        if (!done[i] && ops[i].res >= 0) all = false;
    }
    if (all) return true;
    if (!seen.insert(k + s.key()).second) return false;
    long lim = 1L << 60;
    for (size_t i = 0; i < ops.size(); ++i)
        if (!done[i] && ops[i].res >= 0 && ops[i].res < lim) lim = ops[i].res;
    for (size_t i = 0; i < ops.size(); ++i)
        if (!done[i] && ops[i].inv < lim && ops[i].res >= 0) {
            Spec n = s;
            if (!n.apply(ops[i])) continue;
            done[i] = 1;
            if (lin(n)) return true;
            done[i] = 0;
        }
    return false;
}
static std::string show(const Op& o)
{
    std::string s = "T" + std::to_string(o.th) + " [" + std::to_string(o.inv) + "," + std::to_string(o.res) + "] " + o.name;
    for (auto x : o.in) s += " " + std::to_string(x);
    if (o.kind == 't' || o.kind == 'k') s += o.some ? " -> " + std::to_string(o.out) : " -> nothing";
    if (o.kind == 'L' || o.kind == 'l' || o.kind == 'm') s += o.some ? " -> true" : " -> false";
    if (o.kind == 'n') s += " -> " + std::to_string(o.out);
    return s;
}
static void dump()
{
    if (!g_verbose) return;
    for (auto& o : ops) note(show(o));
}
static void check_lin()
{
    dump();
    seen.clear();
    done.assign(ops.size(), 0);
    if (!lin(Spec())) fail("lin", "no order of the operations explains the results");
}
static void opt(size_t i, std::optional<Elem>& r) { end_op(i, (bool)r, r ? r->v : 0); }

#if KIND < 3
#if KIND == 0
using Q = SimpleQueue<Elem, sch::Mutex>;
#elif KIND == 1
using Q = BlockingQueue<Elem, sch::Mutex, sch::Cond>;
#else
using Q = BlockingPriorityQueue<Elem, sch::Mutex, sch::Cond>;
#endif
static Q* q;
static void names()
{
    // the lock members are told apart by their distance from the object
    sch::order.clear();
    sch::lockname.clear();
    char* b = reinterpret_cast<char*>(q);
    for (size_t k = 0; k < sizeof(Q); ++k) sch::lockname[b + k] = "+" + std::to_string(k);
}
static void do_push(int t, Rng& r)
{
    long v = nextval++;
    int w = (int)r.below(4);
    auto i = begin_op(t, w < 2 ? "push" : "emplace", 'p', {v});
    Elem e(v);
    if (w == 0) q->push(e);
    else if (w == 1) q->push(Elem(v));
    else if (w == 2) q->emplace(v);
    else q->emplace(std::move(e));
    end_op(i);
}
#if KIND == 2
static void do_prio(int t, Rng& r)
{
    long v = nextval++;
    int w = (int)r.below(3);
    auto i = begin_op(t, w < 2 ? "pushPriority" : "emplacePriority", 'p', {v}, true);
    Elem e(v);
    if (w == 0) q->pushPriority(e);
    else if (w == 1) q->pushPriority(Elem(v));
    else q->emplacePriority(v);
    end_op(i);
}
#endif
static void do_trypop(int t)
{
    auto i = begin_op(t, "try_pop", 't');
#if KIND == 0
    auto v = q->pop();
#else
    auto v = q->try_pop();
#endif
    opt(i, v);
}
static void do_peek(int t)
{
    auto i = begin_op(t, "peek", 'k');
#if KIND == 0
    auto v = q->peek();
#else
    auto v = q->try_peek();
#endif
    opt(i, v);
}
static void do_clear(int t)
{
    auto i = begin_op(t, "clear", 'c');
    q->clear();
    end_op(i);
}
static int waiting = 0;     // takes that still have to finish
#if KIND != 0
static void do_pop(int t, Rng& r, int w, int cb)
{
    if (w == 1) {
        auto i = begin_op(t, "timed pop", 't');
        auto v = q->pop(std::chrono::milliseconds(3));
        opt(i, v);
        return;
    }
    ++waiting;
    if (w == 0) {
        auto i = begin_op(t, "pop", 't');
        Elem v = q->pop();
        end_op(i, true, v.v);
    } else {
        auto i = begin_op(t, "popOrCall", 't');
        int left = 1;
        Elem v = q->popOrCall([&]() {
            sch::point();
            if (left-- > 0 && cb) do_push(t, r);
        });
        end_op(i, true, v.v);
    }
    --waiting;
}
#endif
static void quiet(const char* cat, size_t expect)
{
    if (q->empty() != (expect == 0)) fail(cat, "empty() disagrees with the contents at rest");
#if KIND != 2
    if (q->size() != expect) fail(cat, "size() disagrees with the contents at rest");
#endif
}
static void drain(const char* cat)
{
    // at rest: the queries agree with what comes out
    bool e = q->empty();
#if KIND != 2
    size_t n = q->size();
#endif
    size_t k = 0;
    for (;; ++k) {
        if (k > 200) fail("lin", "more elements come out than were pushed");
        bool pk = k % 2;
        if (pk) do_peek(0);
        do_trypop(0);
        if (!ops.back().some) break;
    }
    check_lin();
    if (e != (k == 0)) fail(cat, "empty() disagrees with the contents at rest");
#if KIND != 2
    if (n != k) fail(cat, "size() disagrees with the contents at rest");
#endif
}
static void sequential(Rng& r, int n)
{
    // a single-threaded stretch, with moves
    for (int k = 0; k < n; ++k) {
        switch (r.below(10)) {
            case 0:
            case 1:
            case 2: do_push(0, r); break;
            case 3: do_trypop(0); break;
            case 4: do_peek(0); break;
            case 5: if (r.chance(30)) do_clear(0); break;
            case 6: q->reserve((size_t)r.below(8)); break;
            case 7: {
                Q* o;
                if (r.chance(50)) {
                    o = new Q(std::move(*q));
                } else {
                    o = r.chance(50) ? new Q() : new Q((size_t)r.below(5));
                    if (r.chance(50)) {
                        o->push(Elem(-5));
                        o->push(Elem(-6));
                    }
#if KIND == 2
                    if (r.chance(50)) o->pushPriority(Elem(-7));
#endif
                    *o = std::move(*q);
                }
                std::swap(o, q);
                names();
                // the source is an empty, usable queue
                std::swap(o, q);
                quiet("lin", 0);
                o->reserve(1);
                q->push(Elem(5));
                quiet("lin", 1);
#if KIND == 0
                auto v = q->pop();
#else
                auto v = q->try_pop();
#endif
                if (!v || v->v != 5) fail("lin", "a moved-from queue does not work");
                quiet("lin", 0);
                std::swap(o, q);
                delete o;
                break;
            }
            case 8:
#if KIND == 2
                do_prio(0, r);
                break;
#elif KIND == 0
            {
                std::vc_vector<Elem> vs;
                L in;
                for (long j = r.below(4); j > 0; --j) {
                    in.push_back(nextval);
                    vs.emplace_back(nextval++);
                }
                auto i = begin_op(0, "pushVector", 'p', in);
                q->pushVector(vs);
                end_op(i);
                break;
            }
#endif
            default: do_push(0, r); break;
        }
    }
}
static void one(Rng& r, int nops)
{
    ops.clear();
    now = 0;
    nextval = 1;
    waiting = 0;
    sch::rng = &r;
    q = r.chance(70) ? new Q() : new Q((size_t)r.below(6));
    names();
    sch::mode = (int)r.below(3);
    sch::spurious = r.chance(30) ? 20 : 0;
    if (r.chance(40)) sequential(r, (int)r.below(8));
    if (r.chance(15)) {
        sequential(r, (int)r.below(12));
        drain("lin");
        delete q;
        return;
    }
    int T = 2 + (int)r.below(3);
    int per = std::max(1, std::min(nops, 2 + (int)r.below(nops + 1)) / T + (int)r.below(2));
    int style = (int)r.below(4);
    std::vector<std::function<void()>> fs;
    bool clears = r.chance(15);
    for (int t = 1; t <= T; ++t) {
        std::vector<int> pl;
        int role = (int)r.below(3);
        for (int k = 0; k < per; ++k) {
            int o = (int)r.below(12);
            if (style == 0) o = role == 0 ? (int)r.below(5) : 5 + (int)r.below(7);   // producers and consumers
            if (style == 1) o = t == 1 ? (int)r.below(5) : 5 + (int)r.below(7);
            pl.push_back(o);
        }
        fs.push_back([t, pl, clears, &r]() {
            for (int o : pl) {
                switch (o) {
                    case 0:
                    case 1:
                    case 2: do_push(t, r); break;
                    case 3:
                    case 4:
#if KIND == 2
                        do_prio(t, r);
#elif KIND == 0
                    {
                        std::vc_vector<Elem> vs;
                        L in;
                        for (long j = r.below(4); j > 0; --j) {
                            in.push_back(nextval);
                            vs.emplace_back(nextval++);
                        }
                        auto i = begin_op(t, "pushVector", 'p', in);
                        q->pushVector(vs);
                        end_op(i);
                    }
#else
                        do_push(t, r);
#endif
                        break;
                    case 5:
                    case 6: do_trypop(t); break;
                    case 7:
                        if (clears && r.chance(60)) do_clear(t);
                        else do_peek(t);
                        break;
                    case 8:
                        (void)q->empty();
                        if (r.chance(30)) q->reserve((size_t)r.below(6));
#if KIND != 2
                        (void)q->size();
#endif
                        break;
                    default:
#if KIND != 0
                        do_pop(t, r, o - 9, r.chance(40));
#else
                        do_trypop(t);
#endif
                        break;
                }
                if (!sch::th[t].held.empty()) fail("race", "a lock is still held after an operation returned");
            }
        });
    }
    // the last thread runs only when the others sleep or are done
    fs.push_back([T, &r]() {
        bool fed = false;
        for (;;) {
            bool sleep = false, timed = false;
            for (int i = 1; i <= T; ++i) {
                if (sch::th[i].st == sch::MUT) fail("race", "deadlock: operations wait for each other's locks");
                if (sch::th[i].st == sch::CV) sleep = true;
                if (sch::th[i].st == sch::CVT) sleep = timed = true;
            }
            if (!sleep) return;
            bool clr = false;
            size_t in = 0, out = 0;
            for (auto& o : ops) {
                if (o.kind == 'c') clr = true;
                if (o.kind == 'p' && o.res >= 0) in += o.in.size();
                if (o.kind == 't' && o.some && o.res >= 0) ++out;
            }
            if (fed || (!clr && in > out)) {
                dump();
                fail("wake", "a consumer sleeps while an element is in the queue and all producers have returned");
            }
            if (timed && r.chance(50)) {
                for (int i = 1; i <= T; ++i)
                    if (sch::th[i].st == sch::CVT) {
                        sch::th[i].timedout = true;
                        sch::th[i].st = sch::READY;
                    }
                sch::point();
                continue;
            }
#if KIND == 2
            if (r.chance(30)) do_prio(T + 1, r);
            else
#endif
                do_push(T + 1, r);
            // every runnable thread ran before this one goes on
            size_t n = 0;
            for (auto& o : ops)
                if (o.kind == 't' && o.some && o.res >= 0) ++n;
            sch::point();
            size_t m = 0, p = 0;
            for (auto& o : ops) {
                if (o.kind == 't' && o.some && o.res >= 0) ++m;
                if (o.kind == 'p' && o.res >= 0 && o.th == T + 1) ++p;
            }
            (void)p;
            fed = clr && m == out;      // with a clear about, only a push nobody reacted to is proof
        }
    });
    sch::idle = T + 1;
    bool ok = sch::run(fs, r);
    sch::idle = 0;
    if (!ok) fail("wake", "an operation sleeps for ever");
    drain("lin");
    delete q;
}
#else
using A = AirLock<Elem, sch::Mutex, sch::Cond>;
static A* a;
static void one(Rng& r, int nops)
{
    ops.clear();
    now = 0;
    nextval = 1;
    sch::rng = &r;
    a = new A();
    sch::order.clear();
    sch::lockname.clear();
    for (size_t k = 0; k < sizeof(A); ++k) sch::lockname[reinterpret_cast<char*>(a) + k] = "+" + std::to_string(k);
    sch::mode = (int)r.below(3);
    sch::spurious = r.chance(30) ? 20 : 0;
    int T = 2 + (int)r.below(3);
    int per = std::max(1, std::min(nops, 2 + (int)r.below(nops + 1)) / T + (int)r.below(2));
    int style = (int)r.below(3);
    std::vector<std::function<void()>> fs;
    for (int t = 1; t <= T; ++t) {
        std::vector<int> pl;
        for (int k = 0; k < per; ++k) {
            int o = (int)r.below(10);
            if (style == 0) o = t == 1 ? 6 + (int)r.below(4) : (int)r.below(6);
            pl.push_back(o);
        }
        fs.push_back([t, pl, &r]() {
            for (int o : pl) {
                if (o < 3) {
                    long v = nextval++;
                    auto i = begin_op(t, "try_load", 'L', {v});
                    Elem e(v);
                    bool b = r.chance(50) ? a->try_load(e) : a->try_load(std::move(e));
                    end_op(i, b);
                } else if (o < 6) {
                    long v = nextval++;
                    auto i = begin_op(t, "load", 'w', {v});
                    Elem e(v);
                    if (r.chance(50)) a->load(e);
                    else a->load(std::move(e));
                    end_op(i);
                } else if (o < 9) {
                    auto i = begin_op(t, "try_unload", 't');
                    auto v = a->try_unload();
                    opt(i, v);
                } else {
                    auto i = begin_op(t, "isLoaded", 'l');
                    bool b = a->isLoaded();
                    end_op(i, b);
                }
                if (!sch::th[t].held.empty()) fail("race", "a lock is still held after an operation returned");
            }
        });
    }
    // the last thread empties the lock as long as somebody waits to load
    fs.push_back([T]() {
        for (;;) {
            bool wait = false;
            for (int i = 1; i <= T; ++i) {
                if (sch::th[i].st == sch::MUT) fail("race", "deadlock: operations wait for each other's locks");
                if (sch::th[i].st == sch::CV || sch::th[i].st == sch::CVT) wait = true;
            }
            if (!wait) return;
            auto i = begin_op(T + 1, "try_unload", 't');
            auto v = a->try_unload();
            opt(i, v);
            if (!v) {
                dump();
                fail("wake", "a loader sleeps while the lock is empty");
            }
            sch::point();
        }
    });
    sch::idle = T + 1;
    bool ok = sch::run(fs, r);
    sch::idle = 0;
    if (!ok) fail("wake", "a loader sleeps for ever");
    auto i = begin_op(0, "try_unload", 't');
    auto v = a->try_unload();
    opt(i, v);
    auto j = begin_op(0, "isLoaded", 'l');
    bool b = a->isLoaded();
    end_op(j, b);
    check_lin();
    delete a;
}
#endif
int variants() { return 1; }
void run_case(Rng& r, int, int nops)
{
    for (int k = 0; k < 10; ++k) {
        std::string s = "schedule " + std::to_string(k);
        note(s);
        one(r, nops);
    }
}
