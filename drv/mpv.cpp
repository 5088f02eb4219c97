#include "mapped.hpp"
#include "MappedPointerVector.hpp"
using namespace gmlc::containers;
using V = MappedPointerVector<Elem, Key>;
using OZ = std::optional<size_t>;
using U = std::unique_ptr<Elem>;
using BIT = decltype(std::declval<const V&>().begin());
extern "C" {
void vc_ctor(V* p) { new (p) V(); }
void vc_move(V* p, V& o) { new (p) V(std::move(o)); }
void vc_assign_move(V* p, V& o) { *p = std::move(o); }
void vc_dtor(V* p) { p->~V(); }
void vc_insert_ptr(V* p, const Key& k, U& e, OZ* r) { new (r) OZ(p->insert(k, std::move(e))); }
void vc_insert(V* p, const Key& k, const Elem& e, OZ* r) { new (r) OZ(p->insert(k, e)); }
void vc_insert_move(V* p, const Key& k, Elem& e, OZ* r) { new (r) OZ(p->insert(k, std::move(e))); }
void vc_insert_nokey(V* p, const Elem& e, OZ* r) { new (r) OZ(p->insert(no_search, e)); }
size_t vc_ioa_ptr(V* p, const Key& k, U& e) { return p->insert_or_assign(k, std::move(e)); }
size_t vc_ioa(V* p, const Key& k, const Elem& e) { return p->insert_or_assign(k, e); }
size_t vc_ioa_move(V* p, const Key& k, Elem& e) { return p->insert_or_assign(k, std::move(e)); }
Elem* vc_find(const V* p, const Key& k) { return p->find(k); }
Elem* vc_index(const V* p, size_t i) { return (*p)[i]; }
Elem* vc_back(V* p) { return p->back(); }
bool vc_add_term(V* p, const Key& k, size_t i) { return p->addSearchTermForIndex(k, i); }
void vc_remove_index(V* p, size_t i) { p->removeIndex(i); }
void vc_remove(V* p, const Key& k) { p->remove(k); }
void vc_apply(V* p) { p->apply(VisitPtr{}); }
void vc_apply_const(const V* p) { p->apply(VisitPtr{}); }
void vc_begin(const V* p, BIT* r) { new (r) BIT(p->begin()); }
void vc_end(const V* p, BIT* r) { new (r) BIT(p->end()); }
size_t vc_size(const V* p) { return p->size(); }
void vc_clear(V* p) { p->clear(); }
}
