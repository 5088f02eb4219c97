#include "mapped.hpp"
#include "mapOps.hpp"
using M = std::map<Key, Elem>;
using U = std::unordered_map<Key, Elem>;
extern "C" {
void vc_find_default(const M& m, const Key& k, const Elem& d, Elem* r) { new (r) Elem(mapFind(m, k, d)); }
void vc_find_optional(const M& m, const Key& k, std::optional<Elem>* r) { new (r) std::optional<Elem>(mapFind(m, k)); }
void vc_ufind_default(const U& m, const Key& k, const Elem& d, Elem* r) { new (r) Elem(mapFind(m, k, d)); }
void vc_ufind_optional(const U& m, const Key& k, std::optional<Elem>* r) { new (r) std::optional<Elem>(mapFind(m, k)); }
}
