PRE = r'''
#include "WorkQueue.hpp"
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
using namespace gmlc::containers;
using Prio = WorkQueue::WorkPriority;
using P = std::shared_ptr<BasicWorkBlock>;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s\n", #c); fflush(stdout); _Exit(1); } } while (0)
struct Blk: BasicWorkBlock {
    std::atomic<int> runs{0};
    int cls;
    explicit Blk(int c = 0): cls(c) {}
    void execute() override { ++runs; }
    bool isFinished() const override { return false; }
};
struct Gate: BasicWorkBlock {
    std::mutex m;
    std::condition_variable c;
    bool in = false, open = false;
    void execute() override
    {
        std::unique_lock<std::mutex> l(m);
        in = true;
        c.notify_all();
        c.wait(l, [&] { return open; });
    }
    bool isFinished() const override { return false; }
};
// a queue whose only worker is kept busy: this thread is the only taker
struct Busy {
    std::shared_ptr<Gate> g = std::make_shared<Gate>();
    WorkQueue w{1};
    Busy()
    {
        w.addWorkBlock(g, Prio::required);
        std::unique_lock<std::mutex> l(g->m);
        g->c.wait(l, [&] { return g->in; });
    }
    ~Busy()
    {
        std::lock_guard<std::mutex> l(g->m);
        g->open = true;
        g->c.notify_all();
    }
    char take()
    {
        auto b = w.getWorkBlock();
        return b ? "mlhr"[static_cast<Blk*>(b.get())->cls] : '-';
    }
    void add(int k, int cls) { for (; k > 0; --k) w.addWorkBlock(std::make_shared<Blk>(cls), (Prio)cls); }
};
int main()
{
'''
def demo(body):
    return PRE + body + "    return 0;\n}\n"
W = "WorkQueue.hpp"
SEEDS = [
 dict(id="wq-turn-forgotten-when-low-is-empty", property="C21", file=W,
   edits=[("                if (!workToDoLow.empty()) {\n                    wbb = workToDoLow.pop();\n                    if (wbb) {\n                        MedCounter = 0;\n                        return *wbb;\n                    }\n                }",
           "                wbb = workToDoLow.pop();\n                MedCounter = 0;\n                if (wbb) {\n                    return *wbb;\n                }")],
   needs="ratio-many medium blocks taken while no low block is queued, then one more take, and only then a low block", breaks="the low class's turn is forgotten: the next takes are medium although the ratio is exceeded",
   demo=demo(r'''    Busy b;
    b.add(20, 0);
    for (int k = 0; k < 5; ++k) CHECK(b.take() == 'm');
    b.add(1, 1);
    CHECK(b.take() == 'l');
''')),
 dict(id="wq-low-filler-ends-the-round", property="C21", file=W,
   edits=[("            wbb = workToDoLow.pop();\n            if (wbb) {\n                return *wbb;\n            }\n\n            return wb;", "            wbb = workToDoLow.pop();\n            if (wbb) {\n                MedCounter = 0;\n                return *wbb;\n            }\n\n            return wb;")],
   needs="medium blocks, then a low block taken only because no medium block was left, then medium and low blocks again", breaks="a filler resets the counter: more medium blocks than the ratio are taken before the low class gets its turn",
   demo=demo(r'''    Busy b;
    b.add(3, 0);
    for (int k = 0; k < 3; ++k) CHECK(b.take() == 'm');
    b.add(1, 1);
    CHECK(b.take() == 'l');
    b.add(5, 0);
    b.add(1, 1);
    CHECK(b.take() == 'm');
    CHECK(b.take() == 'l');
''')),
 dict(id="wq-vector-of-required-work-is-medium", property="C21", file=W, nth={"                    case WorkPriority::high:\n                    case WorkPriority::required:\n": 1, "                    case WorkPriority::medium:\n": 1},
   edits=[("                    case WorkPriority::high:\n                    case WorkPriority::required:\n", "                    case WorkPriority::high:\n"),
          ("                    case WorkPriority::medium:\n", "                    case WorkPriority::required:\n                    case WorkPriority::medium:\n")],
   needs="a vector of blocks added with required priority behind queued medium work", breaks="immediate work waits behind medium work",
   demo=demo(r'''    Busy b;
    b.add(2, 0);
    std::vector<P> v{std::make_shared<Blk>(3), std::make_shared<Blk>(3)};
    b.w.addWorkBlock(v, Prio::required);
    CHECK(b.take() == 'r');
    CHECK(b.take() == 'r');
    CHECK(b.take() == 'm');
''')),
 dict(id="wq-low-turn-counts-zero-ratio", property="C21", file=W,
   edits=[("            priorityRatio = (newPriorityRatio > 0) ? newPriorityRatio :\n                                                     defaultPriorityRatio;", "            priorityRatio = (newPriorityRatio > 0) ? newPriorityRatio :\n                                                     defaultPriorityRatio;\n            MedCounter = 0;")],
   needs="the ratio being set while medium blocks have already been taken", breaks="setting the ratio restarts the round: more medium blocks than the ratio before a low one",
   demo=demo(r'''    Busy b;
    b.add(20, 0);
    b.add(3, 1);
    for (int k = 0; k < 4; ++k) CHECK(b.take() == 'm');
    b.w.setPriorityRatio(3);
    CHECK(b.take() == 'l');
''')),
 dict(id="wq-low-turn-taken-block-unchecked", property="C21", file=W,
   edits=[("                    wbb = workToDoLow.pop();\n                    if (wbb) {\n                        MedCounter = 0;\n                        return *wbb;\n                    }", "                    wbb = workToDoLow.pop();\n                    MedCounter = 0;\n                    return *wbb;")],
   needs="two takers that both see the last low block at their low turn", breaks="the taker that comes second returns a block that was never there",
   san="-D_GLIBCXX_ASSERTIONS",
   demo=demo(r'''    for (int n = 0; n < 20000; ++n) {
        static std::unique_ptr<Busy> b;
        if (n % 5000 == 0) { b.reset(); b = std::make_unique<Busy>(); b->w.setPriorityRatio(1); }
        b->add(2, 0);
        b->add(1, 1);
        std::atomic<int> ready{0}, low{0}, all{0};
        auto f = [&] {
            ++ready;
            while (ready < 3) {}
            for (int k = 0; k < 2; ++k) {
                auto x = b->w.getWorkBlock();
                if (x) { ++all; if (static_cast<Blk*>(x.get())->cls == 1) ++low; }
            }
        };
        std::thread t1(f), t2(f), t3(f);
        t1.join(); t2.join(); t3.join();
        CHECK(all <= 3);
        while (b->w.getWorkBlock()) {}
        if (n % 5000 == 4999) b.reset();
    }
''')),
 dict(id="wq-worker-drops-block-after-wait", property="C21", file=W,
   edits=[("                if ((wb) && (!wb->isFinished())) {\n                    wb->execute();\n                }", "                if ((wb) && (!wb->isFinished())) {\n                    auto next = workToDoHigh.pop();\n                    if (next) {\n                        (*next)->execute();\n                    }\n                    wb->execute();\n                }")],
   needs="a finished block in the immediate class that reaches the head while a worker holds another block", breaks="a worker runs blocks of the immediate class without looking whether they are finished, so a block finished elsewhere runs twice",
   demo=demo(r'''    struct Once: Blk {
        std::atomic<bool> fin{false};
        bool isFinished() const override { return fin; }
    };
    auto x = std::make_shared<Once>();
    auto y = std::make_shared<Blk>();
    {
        Busy b;
        b.w.addWorkBlock(y, Prio::high);
        b.w.addWorkBlock(x, Prio::high);
        x->fin = true;
        {
            std::lock_guard<std::mutex> l(b.g->m);
            b.g->open = true;
            b.g->c.notify_all();
        }
        while (y->runs == 0) {}
        while (!b.w.isEmpty()) {}
    }
    CHECK(x->runs == 0);
''')),
 dict(id="wq-close-joins-under-lock", property="C23", file=W,
   edits=[("                halt.store(true);\n                lv.unlock();\n", "                halt.store(true);\n"), ("                queueCondition.notify_all();\n            }\n            for (auto& thrd", "                queueCondition.notify_all();\n                if (numWorkers > 2) {\n                    lv.unlock();\n                }\n            }\n            for (auto& thrd")],
   needs="closing a queue of one or two workers while a worker is between its look at the empty queue and the lock", breaks="close joins the worker while holding the lock the worker needs: deadlock",
   san="",
   demo=demo(r'''    for (int n = 0; n < 3000; ++n) {
        WorkQueue w(1);
        w.addWorkBlock(std::make_shared<Blk>());
        if (n % 3) std::this_thread::sleep_for(std::chrono::microseconds(n % 7));
    }
''')),
 dict(id="wb-update-of-run-empty-block", property="C22", file=W, nth={"            loaded = false;\n            task = std::move(newTask);\n            reset();\n            loaded = true;": 0},
   edits=[("            loaded = false;\n            task = std::move(newTask);\n            reset();\n            loaded = true;", "            task = std::move(newTask);\n            if (loaded) {\n                reset();\n            } else {\n                future_ret = task.get_future();\n                loaded = true;\n            }")],
   needs="a block created without a task, executed, and only then given a task", breaks="the block still counts as finished and never runs the task",
   demo=demo(r'''    WorkBlock<int> b;
    b.execute();
    b.updateTask(std::packaged_task<int()>([] { return 5; }));
    CHECK(!b.isFinished());
    b.execute();
    CHECK(b.isFinished());
    CHECK(b.getReturnVal() == 5);
''')),
 dict(id="wb-moved-block-runs-again", property="C22", file=W,
   edits=[("        WorkBlock(WorkBlock&& wb) = default;\n        WorkBlock& operator=(WorkBlock&& wb) = default;\n        virtual void execute() override\n        {\n            if (!finished) {\n                if (loaded) {\n                    task();\n                }\n                finished = true;\n            }\n        };",
           "        WorkBlock(WorkBlock&& wb) :\n            task(std::move(wb.task)), future_ret(std::move(wb.future_ret)),\n            finished(false), loaded(wb.loaded)\n        {\n        }\n        WorkBlock& operator=(WorkBlock&& wb) = default;\n        virtual void execute() override\n        {\n            if (!finished) {\n                if (loaded) {\n                    task();\n                }\n                finished = true;\n            }\n        };")],
   needs="a void block moved after its task has been run", breaks="the new block reports unfinished and tries to run the task a second time",
   demo=demo(r'''    int runs = 0;
    WorkBlock<void> a([&] { ++runs; });
    a.execute();
    WorkBlock<void> b(std::move(a));
    CHECK(b.isFinished());
    b.execute();
    CHECK(runs == 1);
''')),
 dict(id="wb-void-reset-keeps-run-task", property="C22", file=W, nth={"            if (loaded) {\n                task.reset();\n            }\n            finished = false;": 1},
   edits=[("            if (loaded) {\n                task.reset();\n            }\n            finished = false;", "            if (loaded && !finished) {\n                task.reset();\n            } else if (loaded) {\n                return;\n            }\n            finished = false;")],
   needs="reset of a void block after its task has been run", breaks="the block stays finished and does not run again",
   demo=demo(r'''    int runs = 0;
    WorkBlock<void> a(std::packaged_task<void()>([&] { ++runs; }));
    a.execute();
    a.reset();
    CHECK(!a.isFinished());
    a.execute();
    CHECK(runs == 2);
''')),
 dict(id="wb-updated-function-runs-twice", property="C22", file=W, nth={"            if (!finished) {\n                if (loaded) {\n                    task();\n                }\n                finished = true;\n            }": 0},
   edits=[("            if (!finished) {\n                if (loaded) {\n                    task();\n                }\n                finished = true;\n            }", "            if (!finished) {\n                finished = loaded;\n                if (loaded) {\n                    task();\n                }\n            } else if (!future_ret.valid()) {\n                reset();\n            }")],
   needs="-", breaks="-", demo=demo("")),
]
SEEDS = [s for s in SEEDS if s["needs"] != "-"]
