#include "conc.hpp"
#ifdef PRIO
#include "BlockingPriorityQueue.hpp"
using V = gmlc::containers::BlockingPriorityQueue<Elem, VMutex, VCond>;
#else
#include "BlockingQueue.hpp"
using V = gmlc::containers::BlockingQueue<Elem, VMutex, VCond>;
#endif
using O = std::optional<Elem>;
extern "C" {
void vc_ctor(V* p) { new (p) V(); }
void vc_ctor_cap(V* p, size_t n) { new (p) V(n); }
void vc_ctor_move(V* p, V& o) { new (p) V(std::move(o)); }
void vc_assign_move(V* p, V& o) { *p = std::move(o); }
void vc_dtor(V* p) { p->~V(); }
bool vc_empty(const V* p) { return p->empty(); }
void vc_clear(V* p) { p->clear(); }
void vc_reserve(V* p, size_t n) { p->reserve(n); }
void vc_push(V* p, const Elem& e) { p->push(e); }
void vc_push_move(V* p, Elem& e) { p->push(std::move(e)); }
void vc_emplace(V* p, const Elem& e) { p->emplace(e); }
void vc_emplace_move(V* p, Elem& e) { p->emplace(std::move(e)); }
void vc_try_pop(V* p, O* r) { new (r) O(p->try_pop()); }
void vc_try_peek(const V* p, O* r) { new (r) O(p->try_peek()); }
void vc_pop(V* p, Elem* r) { new (r) Elem(p->pop()); }
void vc_pop_timed(V* p, O* r) { new (r) O(p->pop(std::chrono::milliseconds(5))); }
void vc_pop_or_call(V* p, Elem* r) { new (r) Elem(p->popOrCall(VCall{})); }
#ifdef PRIO
void vc_push_prio(V* p, const Elem& e) { p->pushPriority(e); }
void vc_push_prio_move(V* p, Elem& e) { p->pushPriority(std::move(e)); }
void vc_emplace_prio(V* p, const Elem& e) { p->emplacePriority(e); }
void vc_emplace_prio_move(V* p, Elem& e) { p->emplacePriority(std::move(e)); }
#else
size_t vc_size(const V* p) { return p->size(); }
#endif
}
