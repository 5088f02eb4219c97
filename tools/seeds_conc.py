
SQ, BQ, BPQ, AL = "SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp"
SEEDS = [
 dict(id="sq-emplace-releases-pull-early", property="C16", file=SQ, conc=0,
   edits=[("pushElements.emplace_back(std::forward<Args>(args)...);", "pushElements.emplace_back(std::forward<Args>(args)...);"),
          ("                    queueEmptyFlag = false;\n                    return;\n                }\n                // reengage", "                    queueEmptyFlag = false;\n                    return;\n                }\n                pullLock.unlock();\n                // reengage")],
   needs="an emplace that finds the push side empty and the pull side non-empty, with a pop draining the queue between its two locks", breaks="the element lands on the push side of a queue already marked empty: empty() reports true at rest while an element is held"),
 dict(id="sq-clear-without-push-lock", property="C23", file=SQ, conc=0, nth={"            std::lock_guard<MUTEX> pushLock(m_pushLock);  // second pushLock\n            pullElements.clear();\n": 0},
   edits=[("            std::lock_guard<MUTEX> pushLock(m_pushLock);  // second pushLock\n            pullElements.clear();\n", "            pullElements.clear();\n")],
   needs="clear() running while another thread appends to the push side", breaks="the push-side vector is accessed without its lock"),
 dict(id="sq-size-lock-order", property="C23", file=SQ, conc=0,
   edits=[("            std::lock_guard<MUTEX> pullLock(m_pullLock);  // first pullLock\n            std::lock_guard<MUTEX> pushLock(m_pushLock);  // second pushLock\n            return pullElements.size()", "            std::lock_guard<MUTEX> pushLock(m_pushLock);\n            std::lock_guard<MUTEX> pullLock(m_pullLock);\n            return pullElements.size()")],
   needs="size() and a pop that refills its side at the same moment", breaks="the two locks are taken in opposite orders: deadlock"),
 dict(id="sq-vector-unlocks-before-append", property="C16", file=SQ, conc=0, 
   edits=[("            pushElements.insert(pushElements.end(), val.begin(), val.end());", "            for (auto& el : val) {\n                pushElements.push_back(el);\n                pushLock.unlock();\n                pushLock.lock();\n            }")],
   needs="two concurrent pushes of which one pushes a vector onto a queue that already holds push-side elements", breaks="the elements of one vector push are interleaved with other pushes"),
 dict(id="bq-emplace-no-second-notify", property="C18", file=BQ, conc=1,
   edits=[("                    pushElements.emplace_back(std::forward<Args>(args)...);\n                    expEmpty = true;\n                    if (queueEmptyFlag.compare_exchange_strong(\n                            expEmpty, false)) {\n                        condition.notify_all();\n                    }\n                    return;", "                    pushElements.emplace_back(std::forward<Args>(args)...);\n                    return;")],
   needs="a consumer that empties the queue and goes to sleep between an emplace's look at the empty flag and its append", breaks="the element stays on the push side and no consumer is told"),
 dict(id="bq-push-notify-early", property="C18", file=BQ, conc=1, nth={"                    queueEmptyFlag = false;\n                    if (pullElements.empty()) {\n                        pullElements.push_back(std::forward<Z>(val));": 0, "                    // pullLock.unlock ();\n                    condition.notify_all();\n                    return;\n                } else {\n                    pushElements.push_back": 0},
   edits=[("                    // pullLock.unlock ();\n                    condition.notify_all();\n                    return;\n                } else {\n                    pushElements.push_back", "                    return;\n                } else {\n                    pushElements.push_back"),
          ("                    pushLock.unlock();\n                    std::unique_lock<MUTEX> pullLock(\n                        m_pullLock);  // first pullLock\n                    queueEmptyFlag = false;\n                    if (pullElements.empty()) {\n                        pullElements.push_back", "                    pushLock.unlock();\n                    condition.notify_all();\n                    std::unique_lock<MUTEX> pullLock(\n                        m_pullLock);  // first pullLock\n                    queueEmptyFlag = false;\n                    if (pullElements.empty()) {\n                        pullElements.push_back")],
   needs="a consumer that starts to wait between the notification and the append", breaks="the notification is sent before the element can be seen, so the consumer sleeps on"),
 dict(id="bq-swap-after-unlock", property="C17", file=BQ, conc=1,
   edits=[("                    std::swap(pushElements, pullElements);\n                    // we can free the push function to accept more elements\n                    // after the swap call;\n                    pushLock.unlock();\n", "                    pushLock.unlock();\n                    std::swap(pushElements, pullElements);\n")],
   needs="a push between the consumer's unlock and its swap", breaks="an element appended during the swap is lost or the vectors are corrupted"),
 dict(id="bq-timed-out-take-skips-recheck", property="C17", file=BQ, conc=1,
   edits=[("                pullLock.unlock();\n                val = try_pop();\n                if (res != std::cv_status::no_timeout) {\n                    break;", "                pullLock.unlock();\n                if (res != std::cv_status::no_timeout) {\n                    break;"), 
          ("                    break;\n                }\n            }\n            // move the value out of the optional\n            return val;", "                    break;\n                }\n                val = try_pop();\n            }\n            // move the value out of the optional\n            return val;")],
   needs="a timed take whose wait ends exactly when an element sits on the push side only", breaks="the take reports nothing although the queue holds an element"),
 dict(id="bpq-prio-no-second-notify", property="C18", file=BPQ, conc=2, 
   edits=[("                std::unique_lock<MUTEX> pullLock(m_pullLock);\n                priorityQueue.push(std::forward<Z>(val));\n                expEmpty = true;\n                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {\n                    condition.notify_all();\n                }", "                std::unique_lock<MUTEX> pullLock(m_pullLock);\n                priorityQueue.push(std::forward<Z>(val));\n                queueEmptyFlag = false;")],
   needs="a priority push that saw a non-empty queue which a consumer drained before the push got the lock", breaks="sleeping consumers are not notified of the priority element"),
 dict(id="bpq-popcall-order-after-wait", property="C19", file=BPQ, conc=2,
   edits=[("                // need to check again to handle spurious wake-up\n                if (!priorityQueue.empty()) {", "                // need to check again to handle spurious wake-up\n                if (!priorityQueue.empty() && pullElements.empty()) {")],
   needs="a popOrCall woken while both an ordinary and a priority element are present", breaks="the ordinary element is delivered before the priority element"),
 dict(id="bpq-flag-ignores-priority", property="C19", file=BPQ, conc=2,
   edits=[("                } else if (priorityQueue.empty()) {\n                    queueEmptyFlag = true;", "                } else {\n                    queueEmptyFlag = true;")],
   needs="two or more priority elements and no ordinary ones, one of which is taken", breaks="empty() reports true while priority elements remain"),
 dict(id="bpq-clear-forgets-priority", property="C19", file=BPQ, conc=2,
   edits=[("            while (!priorityQueue.empty()) {\n                priorityQueue.pop();\n            }", "            if (!priorityQueue.empty()) {\n                priorityQueue.pop();\n            }")],
   needs="clear() with at least two priority elements queued", breaks="priority elements survive the clear"),
 dict(id="al-load-no-recheck", property="C20", file=AL, conc=3,
   edits=[("            while (loaded.load(std::memory_order_acquire)) {", "            if (loaded.load(std::memory_order_acquire)) {")],
   needs="a spurious wake-up, or another loader winning between the notification and the wake-up", breaks="a held value is overwritten and lost"),
 dict(id="al-unload-no-recheck", property="C20", file=AL, conc=3,
   edits=[("            // can use relaxed since we are behind a mutex\n            if (loaded.load(std::memory_order_acquire)) {", "            {")],
   needs="two unloads that both see the lock loaded before either takes the door", breaks="the same value is handed over twice"),
 dict(id="al-tryload-stale-check", property="C20", file=AL, conc=3,
   edits=[("            std::lock_guard<MUTEX> lock(door);\n            if (!loaded.load(std::memory_order_acquire)) {\n                data", "            std::lock_guard<MUTEX> lock(door);\n            {\n                data")],
   needs="two try_loads that both see the lock empty before either takes the door", breaks="a held value is overwritten"),
 dict(id="al-notify-only-if-unloaded-twice", property="C20", file=AL, conc=3,
   edits=[("                loaded.store(false, std::memory_order_release);\n                condition.notify_one();", "                condition.notify_one();\n                lockless = false;\n                loaded.store(false, std::memory_order_release);")],
   needs="x", breaks="x"),
]
SEEDS = [s for s in SEEDS if s["needs"] != "x"]
