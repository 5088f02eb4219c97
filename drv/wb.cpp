// Work blocks: WorkBlock<R> for a value type and for void.
#include <new>
#include "WorkQueue.hpp"
using namespace gmlc::containers;
#ifndef VN
#define VN 0
#endif
#if VN == 0
using R = long;
#else
using R = void;
#endif
struct Fn {
    Fn(const Fn&);
    Fn(Fn&&) noexcept;
    ~Fn();
    R operator()();
    long id;
};
using W = WorkBlock<R>;
using T = std::packaged_task<R()>;
using U = std::unique_ptr<W>;
extern "C" {
void vc_ctor_default(W* p) { new (p) W(); }
void vc_ctor_fn(W* p, Fn& f) { new (p) W(f); }
void vc_ctor_fn_move(W* p, Fn& f) { new (p) W(std::move(f)); }
void vc_ctor_task(W* p, T& t) { new (p) W(std::move(t)); }
void vc_ctor_move(W* p, W& o) { new (p) W(std::move(o)); }
void vc_assign_move(W* p, W& o) { *p = std::move(o); }
void vc_dtor(W* p) { p->W::~W(); }
void vc_execute(W* p) { p->W::execute(); }
bool vc_finished(const W* p) { return p->W::isFinished(); }
#if VN == 0
long vc_value(const W* p) { return p->getReturnVal(); }
#else
void vc_value(const W* p) { p->getReturnVal(); }
#endif
void vc_update_fn(W* p, Fn& f) { p->updateWorkFunction(f); }
void vc_update_fn_move(W* p, Fn& f) { p->updateWorkFunction(std::move(f)); }
void vc_update_task(W* p, T& t) { p->updateTask(std::move(t)); }
void vc_wait(W* p) { p->wait(); }
void vc_reset(W* p) { p->reset(); }
void vc_future(W* p, std::shared_future<R>* r) { new (r) std::shared_future<R>(p->get_future()); }
void vc_make(U* r, Fn& f) { new (r) U(make_workBlock(f)); }
void vc_make_task(U* r, T& t) { new (r) U(make_workBlock(std::move(t))); }
}
