// Opaque key types: declared only, every operation is supplied by the verifier.
#pragma once
#include "velem.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#ifndef VN
#define VN 0
#endif
#define VSTAB ((VN & 1) != 0 ? reference_stability::stable : reference_stability::unstable)
#define VSWAP ((VN & 2) != 0)
template<int N>
struct KeyT {
    KeyT() noexcept;
    KeyT(const KeyT&) noexcept;
    KeyT(KeyT&&) noexcept;
    KeyT& operator=(const KeyT&) noexcept;
    KeyT& operator=(KeyT&&) noexcept;
    ~KeyT();
    bool operator<(const KeyT&) const noexcept;
    bool operator==(const KeyT&) const noexcept;
    long opaque[3];
};
namespace std {
template<int N>
struct hash<KeyT<N>> {
    size_t operator()(const KeyT<N>&) const noexcept;
};
}
using Key = KeyT<1>;
using Key2 = KeyT<2>;
#include "MapTraits.hpp"
template<>
struct is_easily_hashable<KeyT<(VSWAP ? 1 : 2)>> {
    static constexpr bool value = true;
};
void vc_visit(const Elem& e);
void vc_modify(Elem& e);
Elem vc_transform(const Elem& e);
void vc_visit_ptr(const Elem* e);
struct Visit { void operator()(const Elem& e) const { vc_visit(e); } };
struct Modify { void operator()(Elem& e) const { vc_modify(e); } };
struct Transform { Elem operator()(const Elem& e) const { return vc_transform(e); } };
struct VisitPtr { void operator()(const Elem* e) const { vc_visit_ptr(e); } };
