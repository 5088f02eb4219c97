// Lock and condition types without bodies: the verifier supplies their contracts.
#pragma once
#include "velem.hpp"
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <optional>
#include <utility>
#include <vector>
struct VMutex {
    void lock();
    void unlock();
    bool try_lock();
    long opaque[5];
};
struct VCond {
    void notify_one() noexcept;
    void notify_all() noexcept;
    void wait(std::unique_lock<VMutex>& l);
    template<class P>
    void wait(std::unique_lock<VMutex>& l, P p)
    {
        while (!p()) wait(l);
    }
    std::cv_status vwait_timed(std::unique_lock<VMutex>& l);
    template<class D>
    std::cv_status wait_for(std::unique_lock<VMutex>& l, const D&)
    {
        return vwait_timed(l);
    }
    template<class D, class P>
    bool wait_for(std::unique_lock<VMutex>& l, const D&, P p)
    {
        while (!p()) {
            if (vwait_timed(l) == std::cv_status::timeout) return p();
        }
        return true;
    }
    template<class D>
    std::cv_status wait_until(std::unique_lock<VMutex>& l, const D&)
    {
        return vwait_timed(l);
    }
    template<class D, class P>
    bool wait_until(std::unique_lock<VMutex>& l, const D&, P p)
    {
        return wait_for(l, 0, p);
    }
    long opaque[6];
};
void vc_callback();
struct VCall {
    void operator()() const { vc_callback(); }
};
