#include "velem.hpp"
#include "StableBlockDeque.hpp"
#ifndef VN
#define VN 2
#endif
using namespace gmlc::containers;
using V = StableBlockDeque<Elem, VN, VAlloc<Elem>>;
using It = V::iterator;
using CIt = V::const_iterator;
extern "C" {
void vc_ctor_default(V* p) { new (p) V(); }
void vc_ctor_size(V* p, size_t n, const Elem& e) { new (p) V(n, e); }
void vc_ctor_size_default(V* p, size_t n) { new (p) V(n); }
void vc_ctor_copy(V* p, const V& o) { new (p) V(o); }
void vc_ctor_move(V* p, V& o) { new (p) V(std::move(o)); }
void vc_assign_copy(V* p, const V& o) { *p = o; }
void vc_assign_move(V* p, V& o) { *p = std::move(o); }
void vc_dtor(V* p) { p->~V(); }
void vc_emplace_back(V* p, const Elem& e) { p->emplace_back(e); }
void vc_emplace_back_move(V* p, Elem& e) { p->emplace_back(std::move(e)); }
void vc_emplace_back_none(V* p) { p->emplace_back(); }
void vc_push_back(V* p, const Elem& e) { p->push_back(e); }
void vc_push_back_move(V* p, Elem& e) { p->push_back(std::move(e)); }
void vc_pop_back(V* p) { p->pop_back(); }
void vc_emplace_front(V* p, const Elem& e) { p->emplace_front(e); }
void vc_emplace_front_move(V* p, Elem& e) { p->emplace_front(std::move(e)); }
void vc_emplace_front_none(V* p) { p->emplace_front(); }
void vc_push_front(V* p, const Elem& e) { p->push_front(e); }
void vc_push_front_move(V* p, Elem& e) { p->push_front(std::move(e)); }
void vc_pop_front(V* p) { p->pop_front(); }
void vc_assign_range(V* p, const Elem* f, const Elem* l) { p->assign(f, l); }
void vc_move_assign_range(V* p, Elem* f, Elem* l) { p->move_assign(f, l); }
void vc_clear(V* p) { p->clear(); }
void vc_shrink(V* p) { p->shrink_to_fit(); }
Elem* vc_back(V* p) { return &p->back(); }
const Elem* vc_cback(const V* p) { return &p->back(); }
Elem* vc_front(V* p) { return &p->front(); }
const Elem* vc_cfront(const V* p) { return &p->front(); }
Elem* vc_index(V* p, size_t n) { return &(*p)[n]; }
const Elem* vc_cindex(const V* p, size_t n) { return &(*p)[n]; }
Elem* vc_at(V* p, size_t n) { return &p->at(n); }
const Elem* vc_cat(const V* p, size_t n) { return &p->at(n); }
size_t vc_size(const V* p) { return p->size(); }
bool vc_empty(const V* p) { return p->empty(); }
void vc_begin(V* p, It* r) { new (r) It(p->begin()); }
void vc_end(V* p, It* r) { new (r) It(p->end()); }
void vc_cbegin(const V* p, CIt* r) { new (r) CIt(p->begin()); }
void vc_cend(const V* p, CIt* r) { new (r) CIt(p->end()); }
void vc_cbegin2(const V* p, CIt* r) { new (r) CIt(p->cbegin()); }
void vc_cend2(const V* p, CIt* r) { new (r) CIt(p->cend()); }
#include "it_ops.hpp"
}
