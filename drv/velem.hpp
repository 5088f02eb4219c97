// Opaque element and allocator types: only declared, so that every operation on
// them is an external call the verifier intercepts.  Proofs are therefore
// generic in the element type.
#pragma once
#include <cstddef>
#include <new>
struct Elem {
    Elem() noexcept;
    Elem(const Elem&) noexcept;
    Elem(Elem&&) noexcept;
    Elem& operator=(const Elem&) noexcept;
    Elem& operator=(Elem&&) noexcept;
    ~Elem();
    long opaque[3];
};
template<class X>
struct VAlloc {
    using value_type = X;
    X* allocate(std::size_t);
    void deallocate(X*, std::size_t);
};
