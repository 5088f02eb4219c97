#include "mapped.hpp"
#include "StringMappedVector.hpp"
using namespace gmlc::containers;
using V = StringMappedVector<Elem, VSTAB>;
using Key_ = std::string_view;
using OZ = std::optional<size_t>;
using IT = decltype(std::declval<V&>().find(std::declval<std::string_view>()));
using CIT = decltype(std::declval<const V&>().find(std::declval<std::string_view>()));
using BIT = decltype(std::declval<const V&>().begin());
extern "C" {
void vc_ctor(V* p) { new (p) V(); }
void vc_copy(V* p, const V& o) { new (p) V(o); }
void vc_move(V* p, V& o) { new (p) V(std::move(o)); }
void vc_assign_copy(V* p, const V& o) { *p = o; }
void vc_assign_move(V* p, V& o) { *p = std::move(o); }
void vc_dtor(V* p) { p->~V(); }
void vc_insert(V* p, std::string_view k, const Elem& e, OZ* r) { new (r) OZ(p->insert(k, e)); }
void vc_insert_move(V* p, std::string_view k, Elem& e, OZ* r) { new (r) OZ(p->insert(k, std::move(e))); }
void vc_insert_nokey(V* p, const Elem& e, OZ* r) { new (r) OZ(p->insert(no_search, e)); }
size_t vc_ioa(V* p, std::string_view k, const Elem& e) { return p->insert_or_assign(k, e); }
size_t vc_ioa_move(V* p, std::string_view k, Elem& e) { return p->insert_or_assign(k, std::move(e)); }
void vc_find(V* p, std::string_view k, IT* r) { new (r) IT(p->find(k)); }
void vc_find_const(const V* p, std::string_view k, CIT* r) { new (r) CIT(p->find(k)); }
Elem* vc_index(V* p, size_t i) { return &(*p)[i]; }
const Elem* vc_index_const(const V* p, size_t i) { return &(*p)[i]; }
Elem* vc_at(V* p, size_t i) { return &p->at(i); }
const Elem* vc_at_const(const V* p, size_t i) { return &p->at(i); }
Elem* vc_back(V* p) { return &p->back(); }
const Elem* vc_back_const(const V* p) { return &p->back(); }
#if (VN & 1)
void vc_remove_index(V* p, size_t i) { p->removeIndex(i); }
void vc_remove(V* p, std::string_view k) { p->remove(k); }
#endif
void vc_apply(const V* p) { p->apply(Visit{}); }
void vc_modify_all(V* p) { p->modify(Modify{}); }
void vc_transform_all(V* p) { p->transform(Transform{}); }
void vc_begin(const V* p, BIT* r) { new (r) BIT(p->begin()); }
void vc_end(const V* p, BIT* r) { new (r) BIT(p->end()); }
size_t vc_size(const V* p) { return p->size(); }
void vc_clear(V* p) { p->clear(); }
}
