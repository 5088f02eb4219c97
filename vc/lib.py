"""Contracts of functions outside the repository: the assumed (trusted) layer."""
import re
from engine import *


def rx(p):
    return re.compile(p)


def elem_handlers(name="Elem"):
    """opaque element type: every operation is a ghost update with lifetime obligations"""
    n = re.escape(name)
    c = re.escape(name.split("<")[0])

    def mk(op):
        def h(eng, st, fn, a, ins):
            eng.lib_used.add("%s %s" % (name, op))
            eng.elem_op(st, op, a)
            return a[0]
        return h
    return [
        (rx(r"^%s::%s\(\)$" % (n, c)), mk("ctor")),
        (rx(r"^%s::%s\(%s const&\)$" % (n, c, n)), mk("copy")),
        (rx(r"^%s::%s\(%s&&\)$" % (n, c, n)), mk("move")),
        (rx(r"^%s::operator=\(%s const&\)$" % (n, n)), mk("assign")),
        (rx(r"^%s::operator=\(%s&&\)$" % (n, n)), mk("massign")),
        (rx(r"^%s::~%s\(\)$" % (n, c)), mk("dtor")),
    ]


def alloc_handlers(fam="blk"):
    def allocate(eng, st, fn, a, ins):
        eng.lib_used.add("Allocator::allocate")
        eng.check(st, le(0, a[1]), "allocation-size-not-negative")
        return eng.new_obj(st, fam, a[1])

    def deallocate(eng, st, fn, a, ins):
        eng.lib_used.add("Allocator::deallocate")
        p = a[1]
        if isinstance(p, FPtr) and p.fam == fam:
            eng.check(st, eq(z3.Select(st.fam[fam + ".size"], zi(p.oid)), a[2]), "deallocate-with-allocated-size")
            eng.free_obj(st, p, fam)
            return None
        eng.check(st, False, "deallocate-a-block", assume=False)
        raise PathEnd()
    return [
        (rx(r"^VAlloc<Elem>::allocate\(unsigned long\)$"), allocate),
        (rx(r"^VAlloc<Elem>::deallocate\(Elem\*, unsigned long\)$"), deallocate),
    ]


def new_handlers(fam):
    """operator new[]/delete[] for an array family; allocation succeeds (bad_alloc out of scope)"""
    def new(eng, st, fn, a, ins):
        eng.lib_used.add("operator new[]")
        es = eng.fams[fam].esize
        n = conc(a[0])
        if isc(n) and n < 0:
            raise PathEnd()      # new[] of an impossible size throws; allocation failure is out of scope
        if isz(n):
            st.assume(n >= 0)
        c = eng.exact_div(st, n, es)
        if c is None:
            raise Unsupported("new[] of odd size")
        if not isc(c):
            st.assume(z3.And(zi(c) >= 0, zi(c) < 2 ** 60))
        return eng.new_obj(st, fam, c)

    def delete(eng, st, fn, a, ins):
        eng.lib_used.add("operator delete[]")
        p = a[0]
        if is_null(p):
            return None
        if not isinstance(p, FPtr) or p.fam != fam:
            eng.check(st, False, "delete[]-of-new[]-memory", assume=False)
            raise PathEnd()
        z = conc(eq(p.oid, 0))
        if z is not False and eng.feasible(st, z):
            s2 = st.copy()
            s2.assume(z)
            st.assume(Not(z))
            if eng.feasible(st):
                eng.free_obj(st, p, fam)
                return ("fork", [(st, None), (s2, None)])
            return ("fork", [(s2, None)])
        eng.free_obj(st, p, fam)
        return None
    return [
        (rx(r"^operator new\[\]\(unsigned long\)$"), new),
        (rx(r"^operator delete\[\]\(void\*(, unsigned long)?\)$"), delete),
    ]


def exc_handlers():
    def alloc_exc(eng, st, fn, a, ins):
        o = Obj("exception", 64, "exception")
        st.mem[o] = {}
        return Ptr(o, 0)

    def throw(eng, st, fn, a, ins):
        ti = a[1]
        return ("throw", ti.obj.name if isinstance(ti, Ptr) else "?")

    def nop(eng, st, fn, a, ins):
        return a[0] if a else None

    def term(eng, st, fn, a, ins):
        eng.check(st, False, "std::terminate-not-reached", assume=False)
        return ("noreturn",)

    def badlen(eng, st, fn, a, ins):
        return ("noreturn",)     # allocation failure: out of scope
    return [
        (rx(r"^__cxa_allocate_exception$"), alloc_exc),
        (rx(r"^__cxa_free_exception$"), nop),
        (rx(r"^__cxa_throw$"), throw),
        (rx(r"^__cxa_begin_catch$"), nop),
        (rx(r"^__cxa_end_catch$"), nop),
        (rx(r"^std::(out_of_range|runtime_error|invalid_argument|length_error|logic_error|domain_error|range_error)::(out_of_range|runtime_error|invalid_argument|length_error|logic_error|domain_error|range_error|~.*)\(.*\)$"), nop),
        (rx(r"^std::__throw_bad_array_new_length\(\)$|^__cxa_throw_bad_array_new_length$|^std::__throw_bad_alloc\(\)$"), badlen),
        (rx(r"^(std::terminate\(\)|__clang_call_terminate|abort|__cxa_rethrow|std::__glibcxx_assert_fail.*)$"), term),
    ]
