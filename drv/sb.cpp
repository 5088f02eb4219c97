#include "StackBuffer.hpp"
#include <new>
using namespace gmlc::containers;
#ifndef VN
#define VN 1
#endif
#if VN == 0
using V = StackBufferRaw;
#else
using V = StackBuffer;
#endif
using uc = unsigned char;
extern "C" {
void vc_ctor(V* p) { new (p) V(); }
bool vc_push(V* p, const uc* b, int n, int q, bool* fits)
{
    *fits = p->isSpaceAvailable(q);
    return p->push(b, n);
}
int vc_pop(V* p, uc* b, int m) { return p->pop(b, m); }
void vc_reverse(V* p) { p->reverse(); }
void vc_clear(V* p) { p->clear(); }
void vc_swap(V* p, V& o) { p->swap(o); }
int vc_next(const V* p) { return p->nextDataSize(); }
int vc_count(const V* p) { return p->getCurrentCount(); }
int vc_capacity(const V* p) { return p->capacity(); }
bool vc_space(const V* p, int n) { return p->isSpaceAvailable(n); }
bool vc_empty(const V* p) { return p->empty(); }
#if VN == 0
void vc_ctor_block(V* p, uc* b, int n) { new (p) V(b, n); }
#else
void vc_ctor_size(V* p, int n) { new (p) V(n); }
void vc_ctor_copy(V* p, const V& o) { new (p) V(o); }
void vc_ctor_move(V* p, V& o) { new (p) V(std::move(o)); }
void vc_assign_copy(V* p, const V& o) { *p = o; }
void vc_assign_move(V* p, V& o) { *p = std::move(o); }
void vc_dtor(V* p) { p->~V(); }
bool vc_resize(V* p, int n) { return p->resize(n); }
int vc_rawcap(const V* p) { return p->rawBlockCapacity(); }
#endif
}
