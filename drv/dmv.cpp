#include "mapped.hpp"
#if VKIND == 0
#include "DualMappedVector.hpp"
#elif VKIND == 1
#include "DualStringMappedVector.hpp"
#else
#include "DualMappedPointerVector.hpp"
#endif
using namespace gmlc::containers;
#if VKIND == 0
using V = DualMappedVector<Elem, Key, Key2, VSTAB>;
using K1 = const Key&;
#define RMV 1
#elif VKIND == 1
using V = DualStringMappedVector<Elem, Key2, VSTAB>;
using K1 = std::string_view;
#define RMV (VN & 1)
#else
using V = DualMappedPointerVector<Elem, Key, Key2>;
using K1 = const Key&;
#define RMV 1
#endif
using K2 = const Key2&;
using OZ = std::optional<size_t>;
using U = std::unique_ptr<Elem>;
#if VKIND == 2
#define NONE1 no_search
#define NONE2 nullptr
#define NONEA nullptr
#else
#define NONE1 no_search
#define NONE2 no_search
#define NONEA no_search
#endif
extern "C" {
void vc_ctor(V* p) { new (p) V(); }
void vc_move(V* p, V& o) { new (p) V(std::move(o)); }
void vc_assign_move(V* p, V& o) { *p = std::move(o); }
void vc_dtor(V* p) { p->~V(); }
void vc_insert(V* p, K1 k, K2 k2, const Elem& e, OZ* r) { new (r) OZ(p->insert(k, k2, e)); }
void vc_insert_move(V* p, K1 k, K2 k2, Elem& e, OZ* r) { new (r) OZ(p->insert(k, k2, std::move(e))); }
void vc_insert_k1(V* p, K1 k, const Elem& e, OZ* r) { new (r) OZ(p->insert(k, NONE2, e)); }
void vc_insert_k2(V* p, K2 k2, const Elem& e, OZ* r) { new (r) OZ(p->insert(NONE1, k2, e)); }
size_t vc_ioa(V* p, K1 k, K2 k2, const Elem& e) { return p->insert_or_assign(k, k2, e); }
size_t vc_ioa_move(V* p, K1 k, K2 k2, Elem& e) { return p->insert_or_assign(k, k2, std::move(e)); }
size_t vc_ioa_k1(V* p, K1 k, const Elem& e) { return p->insert_or_assign(k, NONE2, e); }
size_t vc_ioa_k2(V* p, K2 k2, const Elem& e) { return p->insert_or_assign(NONEA, k2, e); }
#if RMV
void vc_remove_index(V* p, size_t i) { p->removeIndex(i); }
void vc_remove1(V* p, K1 k) { p->remove(k); }
void vc_remove2(V* p, K2 k) { p->remove(k); }
#endif
size_t vc_size(const V* p) { return p->size(); }
void vc_clear(V* p) { p->clear(); }
#if VKIND == 2
using BIT = decltype(std::declval<const V&>().begin());
void vc_insert_ptr(V* p, K1 k, K2 k2, U& e, OZ* r) { new (r) OZ(p->insert(k, k2, std::move(e))); }
size_t vc_ioa_ptr(V* p, K1 k, K2 k2, U& e) { return p->insert_or_assign(k, k2, std::move(e)); }
Elem* vc_find1(const V* p, K1 k) { return p->find(k); }
Elem* vc_find2(const V* p, K2 k) { return p->find(k); }
Elem* vc_index(const V* p, size_t i) { return (*p)[i]; }
Elem* vc_at(const V* p, size_t i) { return p->at(i); }
Elem* vc_back(V* p) { return p->back(); }
void vc_apply(V* p) { p->apply(VisitPtr{}); }
void vc_apply_const(const V* p) { p->apply(VisitPtr{}); }
#else
using IT = decltype(std::declval<V&>().find(std::declval<K2>()));
using CIT = decltype(std::declval<const V&>().find(std::declval<K2>()));
using BIT = decltype(std::declval<const V&>().begin());
void vc_copy(V* p, const V& o) { new (p) V(o); }
void vc_assign_copy(V* p, const V& o) { *p = o; }
void vc_insert_nokey(V* p, const Elem& e, OZ* r) { new (r) OZ(p->insert(no_search, no_search, e)); }
void vc_find1(V* p, K1 k, IT* r) { new (r) IT(p->find(k)); }
void vc_find2(V* p, K2 k, IT* r) { new (r) IT(p->find(k)); }
void vc_find1_const(const V* p, K1 k, CIT* r) { new (r) CIT(p->find(k)); }
void vc_find2_const(const V* p, K2 k, CIT* r) { new (r) CIT(p->find(k)); }
Elem* vc_index(V* p, size_t i) { return &(*p)[i]; }
const Elem* vc_index_const(const V* p, size_t i) { return &(*p)[i]; }
Elem* vc_at(V* p, size_t i) { return &p->at(i); }
const Elem* vc_at_const(const V* p, size_t i) { return &p->at(i); }
Elem* vc_back(V* p) { return &p->back(); }
const Elem* vc_back_const(const V* p) { return &p->back(); }
bool vc_add_index1(V* p, K1 k, size_t i) { return p->addSearchTermForIndex(k, i); }
bool vc_add_index2(V* p, K2 k, size_t i) { return p->addSearchTermForIndex(k, i); }
bool vc_add_term11(V* p, K1 k, K1 x) { return p->addSearchTerm(k, x); }
bool vc_add_term22(V* p, K2 k, K2 x) { return p->addSearchTerm(k, x); }
bool vc_add_term21(V* p, K2 k, K1 x) { return p->addSearchTerm(k, x); }
bool vc_add_term12(V* p, K1 k, K2 x) { return p->addSearchTerm(k, x); }
void vc_apply(V* p) { p->apply(Visit{}); }
void vc_modify_all(V* p) { p->modify(Modify{}); }
void vc_transform_all(V* p) { p->transform(Transform{}); }
#endif
void vc_begin(const V* p, BIT* r) { new (r) BIT(p->begin()); }
void vc_end(const V* p, BIT* r) { new (r) BIT(p->end()); }
}
