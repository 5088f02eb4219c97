#include "conc.hpp"
#include "SimpleQueue.hpp"
using namespace gmlc::containers;
using V = SimpleQueue<Elem, VMutex>;
using O = std::optional<Elem>;
extern "C" {
void vc_ctor(V* p) { new (p) V(); }
void vc_ctor_cap(V* p, size_t n) { new (p) V(n); }
void vc_ctor_move(V* p, V& o) { new (p) V(std::move(o)); }
void vc_assign_move(V* p, V& o) { *p = std::move(o); }
void vc_dtor(V* p) { p->~V(); }
bool vc_empty(const V* p) { return p->empty(); }
size_t vc_size(const V* p) { return p->size(); }
void vc_clear(V* p) { p->clear(); }
void vc_reserve(V* p, size_t n) { p->reserve(n); }
void vc_push(V* p, const Elem& e) { p->push(e); }
void vc_push_move(V* p, Elem& e) { p->push(std::move(e)); }
void vc_push_vector(V* p, const std::vector<Elem>& v) { p->pushVector(v); }
void vc_emplace(V* p, const Elem& e) { p->emplace(e); }
void vc_emplace_move(V* p, Elem& e) { p->emplace(std::move(e)); }
void vc_pop(V* p, O* r) { new (r) O(p->pop()); }
void vc_peek(const V* p, O* r) { new (r) O(p->peek()); }
}
