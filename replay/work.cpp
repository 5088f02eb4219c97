// Histories of the work queue (KIND 0) and of work blocks (KIND 1) against a reference.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "common.hpp"
#include "WorkQueue.hpp"
using namespace gmlc::containers;
#if KIND == 0
using P = std::shared_ptr<BasicWorkBlock>;
using Prio = WorkQueue::WorkPriority;
struct Blk: BasicWorkBlock {
    std::atomic<int> runs{0};
    std::atomic<bool> fin{false};
    long id;
    std::vector<long>* log;
    explicit Blk(long i, std::vector<long>* l = nullptr): id(i), log(l) {}
    void execute() override
    {
        ++runs;
        if (log) log->push_back(id);
        fin = true;
    }
    bool isFinished() const override { return fin; }
};
struct Gate: BasicWorkBlock {
    std::mutex m;
    std::condition_variable c;
    bool in = false, open = false;
    void execute() override
    {
        std::unique_lock<std::mutex> l(m);
        in = true;
        c.notify_all();
        c.wait(l, [&] { return open; });
    }
    bool isFinished() const override { return false; }
    void entered()
    {
        std::unique_lock<std::mutex> l(m);
        if (!c.wait_for(l, std::chrono::seconds(30), [&] { return in; })) fail("hang", "work was never started");
    }
    void release()
    {
        std::lock_guard<std::mutex> l(m);
        open = true;
        c.notify_all();
    }
};
static const char* pname[] = {"medium", "low", "high", "required"};
int variants() { return 3; }
struct Ref {
    std::deque<long> q[3];      // high, medium, low
    int cnt = 0, ratio = 4;
    static int cls(int p) { return p == 0 ? 1 : p == 1 ? 2 : 0; }
    long take()
    {
        auto pop = [&](int k) { long x = q[k].front(); q[k].pop_front(); return x; };
        if (!q[0].empty()) return pop(0);
        if (cnt >= ratio && !q[2].empty()) { cnt = 0; return pop(2); }
        if (!q[1].empty()) { ++cnt; return pop(1); }
        if (!q[2].empty()) return pop(2);
        return 0;
    }
    size_t size() const { return q[0].size() + q[1].size() + q[2].size(); }
};
static void await_all(const std::vector<std::shared_ptr<Blk>>& bs, const char* what)
{
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(30);
    for (auto& b : bs)
        while (b->runs == 0) {
            if (std::chrono::steady_clock::now() > end) fail("map", what);
            std::this_thread::sleep_for(std::chrono::microseconds(50));
        }
}
// one taker at a time: this thread, while the only worker is kept busy; afterwards that worker
static void ordered(Rng& r, int ops)
{
    std::vector<long> log;
    std::vector<std::shared_ptr<Blk>> all, left;
    auto gate = std::make_shared<Gate>();
    WorkQueue w(1);
    w.addWorkBlock(gate, Prio::required);
    gate->entered();
    Ref ref;
    long id = 0;
    int bias = (int)r.below(4);
    for (int n = 0; n < ops; ++n) {
        int o = (int)r.below(100);
        int pr = r.chance(40) ? (int)r.below(4) : bias == 3 ? 0 : (int)r.below(2);
        if (o < 45) {
            auto b = std::make_shared<Blk>(++id, &log);
            int kind = (int)r.below(12);
            note("add block " + std::to_string(id) + " " + pname[pr] + (kind == 0 ? " (already finished)" : ""));
            if (kind == 0) b->fin = true;
            all.push_back(b);
            P p = b;
            if (r.chance(50)) w.addWorkBlock(p, (Prio)pr);
            else if (pr == 0 && r.chance(50)) w.addWorkBlock(p);
            else w.addWorkBlock(std::move(p), (Prio)pr);
            if (kind != 0 || pr == 3) ref.q[Ref::cls(pr)].push_back(id);
        } else if (o < 50) {
            note(std::string("add null ") + pname[pr]);
            w.addWorkBlock(P(), (Prio)pr);
        } else if (o < 60) {
            std::vector<P> v;
            std::string s = "add vector";
            int k = (int)r.below(5);
            for (int i = 0; i < k; ++i) {
                if (r.chance(20)) {
                    v.push_back(nullptr);
                    s += " null";
                } else {
                    auto b = std::make_shared<Blk>(++id, &log);
                    all.push_back(b);
                    v.push_back(b);
                    ref.q[Ref::cls(pr)].push_back(id);
                    s += " " + std::to_string(id);
                }
            }
            note(s + " " + pname[pr]);
            w.addWorkBlock(v, (Prio)pr);
        } else if (o < 90) {
            auto b = w.getWorkBlock();
            long want = ref.take();
            long got = b ? static_cast<Blk*>(b.get())->id : 0;
            note("take -> " + std::to_string(got));
            if (got != want) fail("map", "took block " + std::to_string(got) + " instead of " + std::to_string(want));
            if (b) {
                if (static_cast<Blk*>(b.get())->runs != 0) fail("map", "a block was run before it was taken");
                static_cast<Blk*>(b.get())->runs = 1;
            }
        } else if (o < 94) {
            int k = (int)r.below(7) - 1;
            note("ratio " + std::to_string(k));
            w.setPriorityRatio(k);
            ref.ratio = k > 0 ? k : 4;
        } else {
            REQUIRE("map", w.isEmpty() == (ref.size() == 0));
            REQUIRE("map", w.numBlock() == ref.size());
            REQUIRE("map", w.getWorkerCount() == 1);
        }
    }
    std::vector<long> want;
    while (long x = ref.take()) {
        if (all[x - 1]->fin) continue;      // a finished block is not run again
        want.push_back(x);
        left.push_back(all[x - 1]);
    }
    log.clear();
    note("release the worker");
    gate->release();
    await_all(left, "a queued block was never run");
    w.closeWorkerQueue();
    if (log != want) {
        std::string s = "the worker ran";
        for (auto x : log) s += " " + std::to_string(x);
        s += " instead of";
        for (auto x : want) s += " " + std::to_string(x);
        fail("map", s);
    }
    REQUIRE("map", w.getWorkerCount() == 0);
}
static void direct(Rng& r, int ops)
{
    WorkQueue w(0);
    for (int n = 0; n < ops; ++n) {
        int pr = (int)r.below(4);
        if (r.chance(60)) {
            auto b = std::make_shared<Blk>(n);
            bool f = r.chance(10);
            b->fin = f;
            note(std::string("add block ") + pname[pr]);
            w.addWorkBlock(b, (Prio)pr);
            REQUIRE("map", b->runs == (f && pr != 3 ? 0 : 1));
        } else {
            std::vector<P> v;
            std::vector<std::shared_ptr<Blk>> bs;
            for (int k = (int)r.below(4); k > 0; --k) {
                bs.push_back(r.chance(25) ? nullptr : std::make_shared<Blk>(n));
                v.push_back(bs.back());
            }
            note(std::string("add vector ") + pname[pr]);
            w.addWorkBlock(v, (Prio)pr);
            for (auto& b : bs)
                if (b) REQUIRE("map", b->runs == 1);
        }
        REQUIRE("map", w.isEmpty() && w.numBlock() == 0);
    }
}
static void parallel(Rng& r, int ops)
{
    int n = 1 + (int)r.below(3), m = 1 + (int)r.below(3);
    std::vector<std::vector<std::shared_ptr<Blk>>> mine(m);
    std::vector<std::vector<int>> prio(m);
    for (int t = 0; t < m; ++t)
        for (int k = 0; k < ops / 2 + 1; ++k) {
            mine[t].push_back(std::make_shared<Blk>(k));
            prio[t].push_back((int)r.below(4));
        }
    {
        WorkQueue w(n);
        std::vector<std::thread> ts;
        for (int t = 0; t < m; ++t)
            ts.emplace_back([&, t] {
                for (size_t k = 0; k < mine[t].size(); ++k) w.addWorkBlock(mine[t][k], (Prio)prio[t][k]);
            });
        for (auto& t : ts) t.join();
        for (int t = 0; t < m; ++t) await_all(mine[t], "an added block was never run");
    }
    for (auto& v : mine)
        for (auto& b : v) REQUIRE("map", b->runs == 1);
}
// several takers at a time while the only worker is kept busy
static void takers(Rng& r, int ops)
{
    auto gate = std::make_shared<Gate>();
    WorkQueue w(1);
    w.addWorkBlock(gate, Prio::required);
    gate->entered();
    int T = 2 + (int)r.below(2);
    int ratio = 1 + (int)r.below(3);
    w.setPriorityRatio(ratio);
    note(std::to_string(T) + " takers, ratio " + std::to_string(ratio));
    std::atomic<int> phase{0}, ready{0};
    std::atomic<bool> stop{false};
    std::vector<std::vector<std::shared_ptr<BasicWorkBlock>>> got(T);
    std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t)
        ts.emplace_back([&, t] {
            for (int n = 1;; ++n) {
                while (phase < n)
                    if (stop) return;
                for (int k = 0; k < 2; ++k)
                    if (auto b = w.getWorkBlock()) got[t].push_back(b);
                ++ready;
            }
        });
    std::vector<std::shared_ptr<Blk>> all;
    int rounds = std::min(ops * 20, 400);
    for (int n = 1; n <= rounds; ++n) {
        for (int c = 0; c < 3; ++c)
            for (int k = (int)r.below(c == 0 ? 4 : 2); k > 0; --k) {
                all.push_back(std::make_shared<Blk>(n));
                w.addWorkBlock(all.back(), (Prio)c);
            }
        ready = 0;
        phase = n;
        while (ready < T) {}
    }
    stop = true;
    for (auto& t : ts) t.join();
    while (auto b = w.getWorkBlock()) got[0].push_back(b);
    size_t n = 0;
    for (auto& v : got)
        for (auto& b : v) {
            ++n;
            if (static_cast<Blk*>(b.get())->runs++ != 0) fail("map", "a block was handed out twice");
        }
    if (n != all.size()) fail("map", "a block was lost");
    gate->release();
}
void run_case(Rng& r, int v, int ops)
{
    if (v == 2 && r.chance(20)) return takers(r, ops);
    if (v == 0) ordered(r, ops);
    else if (v == 1) direct(r, ops);
    else if (r.chance(20)) parallel(r, ops);
    else ordered(r, ops * 2);
}
#else
int variants() { return 2; }
template<class R>
struct Model {
    long task = 0;            // 0: none
    bool fin = false;
    long val = 0;
    long gen = 0;
};
static long g_runs, g_last, g_val;
template<class R>
static R body(long id)
{
    ++g_runs;
    g_last = id;
    ++g_val;
    if constexpr (std::is_same<R, long>::value) return g_val;
}
template<class R>
static void history(Rng& r, int ops)
{
    g_runs = 0;
    long id = 0;
    std::vector<std::unique_ptr<WorkBlock<R>>> bs;
    std::vector<Model<R>> ms;
    auto fn = [](long k) { return [k]() { return body<R>(k); }; };
    for (int n = 0; n < ops; ++n) {
        int o = bs.empty() ? 0 : (int)r.below(100);
        if (o < 15) {
            Model<R> m;
            int k = (int)r.below(5);
            note("create block kind " + std::to_string(k));
            if (k == 0) bs.push_back(std::make_unique<WorkBlock<R>>());
            else {
                m.task = ++id;
                if (k == 1) bs.push_back(make_workBlock(fn(id)));
                else if (k == 2) bs.push_back(std::make_unique<WorkBlock<R>>(std::packaged_task<R()>(fn(id))));
                else if (k == 3) {
                    auto f = fn(id);
                    bs.push_back(std::make_unique<WorkBlock<R>>(std::move(f)));
                } else bs.push_back(make_workBlock(std::packaged_task<R()>(fn(id))));
            }
            ms.push_back(m);
            REQUIRE("map", !bs.back()->isFinished());
            continue;
        }
        size_t x = r.below(bs.size());
        auto& b = *bs[x];
        auto& m = ms[x];
        std::string nm = " block " + std::to_string(x);
        if (o < 45) {
            note("execute" + nm);
            long before = g_runs;
            b.execute();
            bool runs = m.task != 0 && !m.fin;
            REQUIRE("map", g_runs - before == (runs ? 1 : 0));
            if (runs) {
                REQUIRE("map", g_last == m.task);
                m.val = g_val;
            }
            m.fin = true;
        } else if (o < 60) {
            note("update" + nm);
            m = Model<R>();
            m.task = ++id;
            if (r.chance(50)) b.updateWorkFunction(fn(id));
            else b.updateTask(std::packaged_task<R()>(fn(id)));
        } else if (o < 70) {
            note("reset" + nm);
            b.reset();
            m.fin = false;
        } else if (o < 75 && bs.size() > 1) {
            size_t y = r.below(bs.size());
            if (y != x) {
                note("move block " + std::to_string(x) + " to block " + std::to_string(y));
                *bs[y] = std::move(*bs[x]);
                ms[y] = ms[x];
                bs.erase(bs.begin() + x);
                ms.erase(ms.begin() + x);
            }
            continue;
        } else if (o < 80) {
            note("move block " + std::to_string(x) + " to a new block");
            bs[x] = std::make_unique<WorkBlock<R>>(std::move(*bs[x]));
        }
        auto& c = *bs[x];
        if (ms[x].task != 0) REQUIRE("map", c.isFinished() == ms[x].fin);
        if (ms[x].task != 0) {
            auto f = c.get_future();
            REQUIRE("map", f.valid());
            bool ready = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
            REQUIRE("map", ready == ms[x].fin);
            if (ready) {
                long before = g_runs;
                c.wait();
                if constexpr (std::is_same<R, long>::value) {
                    REQUIRE("map", c.getReturnVal() == ms[x].val);
                    REQUIRE("map", f.get() == ms[x].val);
                } else c.getReturnVal();
                REQUIRE("map", g_runs == before);
            }
        }
    }
}
void run_case(Rng& r, int v, int ops)
{
    if (v == 0) history<long>(r, ops);
    else history<void>(r, ops);
}
#endif
