#include "conc.hpp"
#include "AirLock.hpp"
using V = gmlc::containers::AirLock<Elem, VMutex, VCond>;
using O = std::optional<Elem>;
extern "C" {
void vc_ctor(V* p) { new (p) V(); }
void vc_dtor(V* p) { p->~V(); }
bool vc_try_load(V* p, const Elem& e) { return p->try_load(e); }
bool vc_try_load_move(V* p, Elem& e) { return p->try_load(std::move(e)); }
void vc_load(V* p, const Elem& e) { p->load(e); }
void vc_load_move(V* p, Elem& e) { p->load(std::move(e)); }
void vc_try_unload(V* p, O* r) { new (r) O(p->try_unload()); }
bool vc_loaded(const V* p) { return p->isLoaded(); }
}
