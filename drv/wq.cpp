// Work queue: every public operation ; the constructor starts threads on the worker loop, which instantiates it.
#include <new>
#include <optional>
#include "WorkQueue.hpp"
using namespace gmlc::containers;
using W = WorkQueue;
using P = std::shared_ptr<BasicWorkBlock>;
extern "C" {
void vc_ctor(W* p, int n) { new (p) W(n); }
void vc_dtor(W* p) { p->~W(); }
int vc_count(W* p) { return p->getWorkerCount(); }
void vc_close(W* p) { p->closeWorkerQueue(); }
void vc_add(W* p, P& w, int prio) { p->addWorkBlock(w, static_cast<W::WorkPriority>(prio)); }
void vc_add_default(W* p, P& w) { p->addWorkBlock(w); }
void vc_add_move(W* p, P& w, int prio) { p->addWorkBlock(std::move(w), static_cast<W::WorkPriority>(prio)); }
void vc_add_vector(W* p, std::vector<P>& w, int prio) { p->addWorkBlock(w, static_cast<W::WorkPriority>(prio)); }
void vc_add_vector_default(W* p, std::vector<P>& w) { p->addWorkBlock(w); }
bool vc_empty(const W* p) { return p->isEmpty(); }
size_t vc_num(const W* p) { return p->numBlock(); }
void vc_ratio(W* p, int r) { p->setPriorityRatio(r); }
void vc_get(W* p, P* r) { new (r) P(p->getWorkBlock()); }
bool vc_null_finished(const NullWorkBlock* p) { return p->NullWorkBlock::isFinished(); }
void vc_null_execute(NullWorkBlock* p) { p->NullWorkBlock::execute(); }
}
