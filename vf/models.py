"""Contracts assumed for what is not in /repo: libc, compiler intrinsics, the
exception runtime, pthread, and the proof intrinsics of vf.hpp.

Each entry is a trusted contract; the evidence lists the ones a proof used.
"""
import os
import re
import z3
from .values import *
from .engine import Unsupported, PathEnd, Throw, OState, DEMANGLE


TAGS = re.compile(r"(C\d\d(,C\d\d)*): ")


def concerns(label):
    """assertions labelled "C03,C05: ..." are obligations of those properties only"""
    m = TAGS.match(label)
    prop = os.environ.get("VF_PROPERTY")
    return m is None or prop is None or prop in m.group(1).split(",")


def build(E):
    M = {}
    pats = []

    def model(*names):
        def d(fn):
            def w(E, st, I, a, f, fn=fn, nm=names[0]):
                if not f.name.startswith(("llvm.", "vf_")):
                    E.externals.add(nm)
                return fn(E, st, I, a, f)
            for n in names:
                M[n] = w
            return fn
        return d

    def pattern(rx):
        def d(fn):
            def w(E, st, I, a, f):
                E.externals.add("pattern " + rx)
                return fn(E, st, I, a, f)
            pats.append((re.compile(rx), w))
            return fn
        return d

    def fresh(name, w):
        return z3.BitVec(f"{name}!{fresh_id()}", w)

    def noop(E, st, I, a, f):
        return None

    # ------------------------------------------------------------ llvm intrinsics
    for n in ("llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.dbg.declare", "llvm.dbg.value",
              "llvm.dbg.label", "llvm.experimental.noalias.scope.decl", "llvm.assume", "llvm.donothing",
              "llvm.stackrestore", "llvm.stackrestore.p0", "llvm.prefetch.p0", "llvm.var.annotation",
              "llvm.va_start", "llvm.va_end", "llvm.va_start.p0", "llvm.va_end.p0"):
        M[n] = noop

    def mcpy(E, st, I, a, f):
        E.memcpy(st, a[0], a[1], a[2], "memcpy")
        return a[0]

    def mset(E, st, I, a, f):
        b = a[1]
        if type(b) is not int and b.size() > 8:
            b = simp(z3.Extract(7, 0, b))
        if type(b) is int:
            b &= 255
        E.memset(st, a[0], b, a[2], "memset")
        return a[0]
    for n in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64"):
        M[n] = mcpy
    model("memcpy", "memmove")(mcpy)
    M["llvm.memset.p0.i64"] = mset
    model("memset", "explicit_bzero_")(mset)

    @model("llvm.threadlocal.address.p0")
    def _(E, st, I, a, f):
        return a[0]

    @model("llvm.stacksave", "llvm.stacksave.p0")
    def _(E, st, I, a, f):
        return NULL

    def expect(E, st, I, a, f):
        return a[0]
    for w in (1, 8, 16, 32, 64):
        M[f"llvm.expect.i{w}"] = expect
        M[f"llvm.is.constant.i{w}"] = lambda E, st, I, a, f: False
        M[f"llvm.umin.i{w}"] = lambda E, st, I, a, f, w=w: ite(ult(a[0], a[1], w), a[0], a[1], w)
        M[f"llvm.umax.i{w}"] = lambda E, st, I, a, f, w=w: ite(ult(a[0], a[1], w), a[1], a[0], w)

        def bswap(E, st, I, a, f, w=w):
            return from_bytes(list(reversed(bytes_of(a[0], w // 8))))
        if w >= 16:
            M[f"llvm.bswap.i{w}"] = bswap

        def fshl(E, st, I, a, f, w=w):
            k = a[2]
            if type(k) is not int:
                raise Unsupported("fshl by symbolic amount")
            k %= w
            if k == 0:
                return a[0]
            return E.i_or(E.binop(st, 'shl', a[0], k, w), E.binop(st, 'lshr', a[1], w - k, w), w)
        M[f"llvm.fshl.i{w}"] = fshl
        def ctlz(E, st, I, a, f, w=w):
            if type(a[0]) is int:
                return w - a[0].bit_length()
            r = w
            for k in range(1, w + 1):
                r = ite(ult(a[0], 1 << (k - 1), w), r, w - k, w)
            return r
        M[f"llvm.ctlz.i{w}"] = ctlz
        M[f"llvm.abs.i{w}"] = lambda E, st, I, a, f, w=w: ite(
            sbool(bv(a[0], w) < 0), sub(0, a[0], w), a[0], w)

        def uaddo(E, st, I, a, f, w=w):
            s = add(a[0], a[1], w)
            return Agg([s, ult(s, a[0], w)])
        M[f"llvm.uadd.with.overflow.i{w}"] = uaddo

        def usubo(E, st, I, a, f, w=w):
            return Agg([sub(a[0], a[1], w), ult(a[0], a[1], w)])
        M[f"llvm.usub.with.overflow.i{w}"] = usubo

        def umulo(E, st, I, a, f, w=w):
            x = simp(z3.ZeroExt(w, bv(a[0], w)) * z3.ZeroExt(w, bv(a[1], w)))
            if type(x) is int:
                return Agg([x & mask(w), x > mask(w)])
            return Agg([simp(z3.Extract(w - 1, 0, x)), sbool(z3.Extract(2 * w - 1, w, x) != 0)])
        M[f"llvm.umul.with.overflow.i{w}"] = umulo

    @model("llvm.trap", "abort", "_ZSt9terminatev", "__clang_call_terminate")
    def _(E, st, I, a, f):
        E.fail(st, "safety", "terminate/abort reached")

    @model("llvm.eh.typeid.for", "llvm.eh.typeid.for.p0")
    def _(E, st, I, a, f):
        return E.typeid(a[0])

    # ------------------------------------------------------------ proof intrinsics
    def cstr(E, st, p):
        os = E.ostate(st, p.obj)
        out = b""
        i = p.off
        while True:
            b = E.read_bytes(st, os, i, 1)[0]
            if type(b) is not int:
                raise Unsupported("label is not constant")
            if b == 0:
                return out.decode()
            out += bytes([b])
            i += 1

    def nondet(w, size=False):
        def h(E, st, I, a, f):
            nm = cstr(E, st, a[0])
            v = fresh(("sz!" if size else "in_") + nm, w)
            if size:
                E.assume(st, z3.ULE(v, 1 << 46))
            st.inputs.append(('u', nm, v, size))
            return v
        return h
    for w in (8, 16, 32, 64):
        M[f"vf_u{w}"] = nondet(w)
    M["vf_size"] = nondet(64, True)

    @model("vf_bool")
    def _(E, st, I, a, f):
        nm = cstr(E, st, a[0])
        v = fresh("in_" + nm, 8)
        st.inputs.append(('u', nm, v, False))
        E.assume(st, z3.ULE(v, 1))
        return sbool(v != 0)

    @model("vf_choose")
    def _(E, st, I, a, f):
        nm = cstr(E, st, a[0])
        n = a[1]
        v = fresh("in_" + nm, 32)
        st.inputs.append(('u', nm, v, False))
        E.assume(st, z3.ULT(v, bv(n, 32)))
        for k in range(n - 1):
            if E.branch(st, v == k):
                return k
        E.assume(st, v == n - 1)
        return n - 1

    @model("vf_alloc")
    def _(E, st, I, a, f):
        """heap object of a[0] arbitrary bytes"""
        nm = cstr(E, st, a[1])
        node = NSym("in_" + nm)
        p = E.alloc(st, nm, a[0], 'heap', node)
        E.assume(st, ule(a[0], 1 << 46))
        st.inputs.append(('b', nm, node, a[0]))
        return p

    @model("vf_new")
    def _(E, st, I, a, f):
        """ghost memory of the contract: not from the allocator under proof"""
        E.assume(st, ule(a[0], 1 << 47))
        return E.alloc(st, "ghost", a[0], 'heap')

    @model("vf_fill")
    def _(E, st, I, a, f):
        """make [p, p+n) arbitrary"""
        p, n = a[0], a[1]
        nm = cstr(E, st, a[2])
        node = NSym("in_" + nm)
        tmp = E.new_obj("fill", n, 'heap')
        st.mem[tmp.id] = OState(node)
        st.inputs.append(('b', nm, node, n))
        if type(n) is int and type(p.off) is int and n <= 4096:
            os = E.check_access(st, p, n, "vf_fill", True)
            cells = dict(os.cells)
            E.clear_range(st, os, cells, p.off, n)
            st.mem[p.obj] = OState(NCopy(p.off, n, node, 0, os.base), cells, True)
        else:
            E.memcpy(st, p, Ptr(tmp.id, 0), n, "vf_fill")
        return None

    @model("vf_assume")
    def _(E, st, I, a, f):
        E.assume(st, tobool(a[0]))
        if not E.feasible(st):
            raise PathEnd()

    @model("vf_assert")
    def _(E, st, I, a, f):
        label = cstr(E, st, a[1])
        if concerns(label):
            E.obligation(st, tobool(a[0]), "assert", label)

    @model("vf_same")
    def _(E, st, I, a, f):
        """assert p[0,n) == q[0,n): at an arbitrary index, in a side state"""
        p, q, n, label = a[0], a[1], a[2], cstr(E, st, a[3])
        if not concerns(label) or not E.checks or (type(n) is int and n == 0):
            return
        s2 = st.clone()
        i = fresh("sz!same", 64)
        E.assume(s2, ult(i, n))
        if not E.feasible(s2):
            return
        try:
            for r in (p, q):
                E.check_access(s2, Ptr(r.obj, add(r.off, i)), 1, "vf_same")
            x = E.read_node(s2, E.node_of(s2, p.obj), add(p.off, i))
            y = E.read_node(s2, E.node_of(s2, q.obj), add(q.off, i))
            E.obligation(s2, eq(x, y, 8), "assert", label)
        except PathEnd:
            pass

    @model("vf_checking")
    def _(E, st, I, a, f):
        return concerns(cstr(E, st, a[0]) + ": ")

    @model("vf_require")
    def _(E, st, I, a, f):
        E.obligation(st, tobool(a[0]), "requires", cstr(E, st, a[1]))

    @model("vf_cover")
    def _(E, st, I, a, f):
        if E.checks:
            n = cstr(E, st, a[0])
            if E.feasible(st):
                E.covers[n] = E.covers.get(n, 0) + 1

    @model("vf_stop")
    def _(E, st, I, a, f):
        if E.checks:
            E.covers["(end of proof reached)"] = E.covers.get("(end of proof reached)", 0) + 1
        raise PathEnd()

    @model("vf_unroll")
    def _(E, st, I, a, f):
        st.unroll = a[0]

    @model("vf_is_symbolic")
    def _(E, st, I, a, f):
        return True

    @model("vf_obj_size")
    def _(E, st, I, a, f):
        p = a[0]
        if p.obj <= 0:
            return 0
        return sub(E.meta[p.obj].size, p.off)

    @model("vf_live")
    def _(E, st, I, a, f):
        p = a[0]
        if p.obj <= 0:
            return False
        os = E.ostate(st, p.obj)
        return bool(os is not None and os.alive)

    @model("vf_same_object")
    def _(E, st, I, a, f):
        return a[0].obj == a[1].obj and a[0].obj > 0

    @model("vf_case")
    def _(E, st, I, a, f):
        """case split on a condition (proof structuring only)"""
        return E.branch(st, tobool(a[0]))

    @model("vf_concretize")
    def _(E, st, I, a, f):
        """case split on all values of a small-range expression"""
        v = a[0]
        while type(v) is not int:
            if st.model is None and not E.feasible(st):
                raise PathEnd()
            if st.model is None:
                raise Unsupported("cannot split")
            c = st.model.val(v)
            if E.branch(st, v == c):
                return c
        return v

    def empty_range(E, st, p, n):
        if p.obj > 0:
            return False
        E.assume(st, eq(n, 0))
        if not E.feasible(st):
            raise PathEnd()
        return True

    @model("vf_no_byte")
    def _(E, st, I, a, f):
        """assume: no byte of [p, p+n) equals c"""
        p, n, c = a
        if empty_range(E, st, p, n):
            return None
        node = E.node_of(st, p.obj)
        c = trunc(c, 32, 8)
        E.add_fact(st, node, p.off, add(p.off, n), lambda s, j, v: b_not(eq(v, c, 8)))

    @model("vf_all_byte")
    def _(E, st, I, a, f):
        """assume: every byte of [p, p+n) equals c"""
        p, n, c = a
        if empty_range(E, st, p, n):
            return None
        node = E.node_of(st, p.obj)
        c = trunc(c, 32, 8)
        E.add_fact(st, node, p.off, add(p.off, n), lambda s, j, v: eq(v, c, 8))

    @model("vf_word")
    def _(E, st, I, a, f):
        """assume: no byte of [p, p+n) is a space, CR or LF"""
        p, n = a
        if empty_range(E, st, p, n):
            return None
        node = E.node_of(st, p.obj)
        E.add_fact(st, node, p.off, add(p.off, n),
                   lambda s, j, v: b_and(b_not(eq(v, 32, 8)), b_not(eq(v, 10, 8)), b_not(eq(v, 13, 8))))

    @model("vf_all_digits")
    def _(E, st, I, a, f):
        """assume: every byte of [p, p+n) is a decimal digit"""
        p, n = a
        if empty_range(E, st, p, n):
            return None
        node = E.node_of(st, p.obj)
        E.add_fact(st, node, p.off, add(p.off, n), lambda s, j, v: isdig(v))

    @model("vf_all_space")
    def _(E, st, I, a, f):
        """assume: every byte of [p, p+n) is white space"""
        p, n = a
        if empty_range(E, st, p, n):
            return None
        node = E.node_of(st, p.obj)
        E.add_fact(st, node, p.off, add(p.off, n), lambda s, j, v: iswsp(v))

    def bytes_equal_fact(E, st, a, b, n):
        na, nb = E.node_of(st, a.obj), E.node_of(st, b.obj)
        d = sub(b.off, a.off)
        busy = []   # the two facts mention each other: instantiate the pair once per read

        def link(other, conv):
            def fact(s, j, v):
                if busy:
                    return True
                busy.append(1)
                try:
                    return eq(v, E.read_node(s, other, conv(j)), 8)
                finally:
                    busy.pop()
            return fact
        E.add_fact(st, na, a.off, add(a.off, n), link(nb, lambda j: add(j, d)))
        E.add_fact(st, nb, b.off, add(b.off, n), link(na, lambda j: sub(j, d)))

    def eq_split(E, st, a, b, n):
        """branch on equality of two byte ranges; True when equal"""
        if type(n) is int and n <= 32:
            x = E.read_bytes(st, E.ostate(st, a.obj), a.off, n)
            y = E.read_bytes(st, E.ostate(st, b.obj), b.off, n)
            return E.branch(st, b_and(*[eq(p, q, 8) for p, q in zip(x, y)]))
        if a.obj == b.obj and eq(a.off, b.off) is True:
            return True
        na, nb = E.node_of(st, a.obj), E.node_of(st, b.obj)
        # identical (snapshot) contents?
        sel = z3.Bool(f"memeq!{fresh_id()}")
        if E.branch(st, sel):
            bytes_equal_fact(E, st, a, b, n)
            if not E.feasible(st):
                raise PathEnd()
            return True
        k = fresh("sz!diff", 64)
        E.assume(st, ult(k, n))
        x = E.read_node(st, na, add(a.off, k))
        y = E.read_node(st, nb, add(b.off, k))
        E.assume(st, b_not(eq(x, y, 8)))
        if not E.feasible(st):
            raise PathEnd()
        return False

    @model("vf_bytes_equal")
    def _(E, st, I, a, f):
        """exact: do the ranges [a,a+n) and [b,b+n) hold the same bytes"""
        if type(a[2]) is int and a[2] == 0:
            return True
        if E.branch(st, eq(a[2], 0)):
            return True
        return eq_split(E, st, a[0], a[1], a[2])

    # ------------------------------------------------------------ allocation
    def do_alloc(E, st, n, name, zero=False):
        if type(n) is not int:
            E.assume(st, z3.ULE(n, 1 << 46))
        p = E.alloc(st, name, n, 'heap', NZero() if zero else None)
        E.addr(p.obj)
        return p

    @model("malloc", "tc_malloc", "_Znwm", "_Znam", "valloc")
    def _(E, st, I, a, f):
        return do_alloc(E, st, a[0], "heap")

    @model("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t")
    def _(E, st, I, a, f):
        return do_alloc(E, st, a[0], "heap")

    @model("calloc")
    def _(E, st, I, a, f):
        return do_alloc(E, st, mul(a[0], a[1]), "heap", True)

    def do_free(E, st, p):
        if not isinstance(p, Ptr):
            p = E.int_to_ptr(p)
        if p.obj == 0:
            return
        if p.obj == -1:
            E.fail(st, "safety", "free of invalid pointer")
        o = E.meta[p.obj]
        os = E.ostate(st, p.obj)
        if os is None or not os.alive:
            E.fail(st, "safety", "double free")
        if o.kind != 'heap':
            E.fail(st, "safety", f"free of non-heap object {o.name}")
        ok = eq(p.off, 0)
        if ok is not True:
            E.obligation(st, ok, "safety", "free of interior pointer")
        st.mem[p.obj] = OState(os.base, os.cells, False)

    @model("free", "tc_free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t",
           "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t")
    def _(E, st, I, a, f):
        do_free(E, st, a[0])

    @model("realloc", "tc_realloc")
    def _(E, st, I, a, f):
        p, n = a
        q = do_alloc(E, st, n, "heap")
        if p.obj != 0:
            o = E.meta[p.obj]
            os = E.ostate(st, p.obj)
            if os is None or not os.alive:
                E.fail(st, "safety", "realloc of freed object")
            m = o.size
            c = ult(m, n)
            k = ite(c, m, n, 64)
            E.memcpy(st, q, p, k, "realloc")
            do_free(E, st, p)
        return q

    # ------------------------------------------------------------ strings
    def flen(E, st, p):
        """bytes available from p to the end of its object"""
        return sub(E.meta[p.obj].size, p.off)

    @model("memchr")
    def _(E, st, I, a, f):
        p, c, n = a
        c = trunc(c, 32, 8) if type(c) is not int else c & 255
        if type(n) is int and n == 0:
            return NULL
        if type(n) is not int and E.branch(st, eq(n, 0)):
            return NULL
        # C11: only the bytes up to the match are read, but the caller must own n bytes
        E.check_access(st, p, n, "memchr")
        node = E.node_of(st, p.obj)
        sel = z3.Bool(f"memchr!{fresh_id()}")
        if E.branch(st, sel):
            k = fresh("sz!mc", 64)
            E.assume(st, ult(k, n))
            pos = add(p.off, k)
            E.assume(st, eq(E.read_node(st, node, pos), c, 8))
            E.add_fact(st, node, p.off, pos, lambda s, j, v: b_not(eq(v, c, 8)))
            if not E.feasible(st):
                raise PathEnd()
            return Ptr(p.obj, pos)
        E.add_fact(st, node, p.off, add(p.off, n), lambda s, j, v: b_not(eq(v, c, 8)))
        if not E.feasible(st):
            raise PathEnd()
        return NULL

    @model("rawmemchr")
    def _(E, st, I, a, f):
        p, c = a
        c = trunc(c, 32, 8) if type(c) is not int else c & 255
        E.check_access(st, p, 1, "rawmemchr")
        node = E.node_of(st, p.obj)
        size = E.meta[p.obj].size
        k = fresh("sz!rmc", 64)
        pos = add(p.off, k)
        E.add_fact(st, node, p.off, pos, lambda s, j, v: b_not(eq(v, c, 8)))
        E.assume(st, ule(k, sub(size, p.off)))
        # either it is found inside the object, or the search runs out of it
        E.obligation(st, ult(pos, size), "safety", f"rawmemchr: may run past the end of {E.meta[p.obj].name}")
        E.assume(st, eq(E.read_node(st, node, pos), c, 8))
        if not E.feasible(st):
            raise PathEnd()
        return Ptr(p.obj, pos)

    @model("memcmp", "bcmp")
    def _(E, st, I, a, f):
        p, q, n = a
        if type(n) is int and n == 0:
            return 0
        if type(n) is not int and E.branch(st, eq(n, 0)):
            return 0
        E.check_access(st, p, n, "memcmp")
        E.check_access(st, q, n, "memcmp")
        if eq_split(E, st, p, q, n):
            return 0
        r = fresh("cmp", 32)
        E.assume(st, r != 0)
        return r

    @model("strncmp", "strcmp")
    def _(E, st, I, a, f):
        p, q = a[0], a[1]
        n = a[2] if len(a) > 2 else 1 << 47
        if type(n) is int and n == 0:
            return 0
        if type(n) is not int and E.branch(st, eq(n, 0)):
            return 0
        np, nq = E.node_of(st, p.obj), E.node_of(st, q.obj)

        def upto(k):
            bytes_equal_fact(E, st, p, q, k)
            E.add_fact(st, np, p.off, add(p.off, k), lambda s, j, v: b_not(eq(v, 0, 8)))
        if E.branch(st, z3.Bool(f"strend!{fresh_id()}")):
            # decided before the limit: by a difference, or by the end of both
            k = fresh("sz!sc", 64)
            E.assume(st, ult(k, n))
            E.check_access(st, p, add(k, 1), "strncmp")
            E.check_access(st, q, add(k, 1), "strncmp")
            upto(k)
            x, y = E.read_node(st, np, add(p.off, k)), E.read_node(st, nq, add(q.off, k))
            same = E.branch(st, eq(x, y, 8))
            if same:
                E.assume(st, eq(x, 0, 8))
            if not E.feasible(st):
                raise PathEnd()
            if same:
                return 0
            r = fresh("cmp", 32)
            E.assume(st, r != 0)
            return r
        E.check_access(st, p, n, "strncmp")
        E.check_access(st, q, n, "strncmp")
        upto(n)
        if not E.feasible(st):
            raise PathEnd()
        return 0

    @model("strlen")
    def _(E, st, I, a, f):
        p = a[0]
        os = E.check_access(st, p, 1, "strlen")
        if type(p.off) is int:
            i = 0
            sz = E.meta[p.obj].size
            if type(sz) is int:
                while p.off + i < sz:
                    b = E.read_bytes(st, os, p.off + i, 1)[0]
                    if type(b) is not int:
                        break
                    if b == 0:
                        return i
                    i += 1
        n = fresh("sz!strlen", 64)
        ok = ult(n, flen(E, st, p))
        E.assume(st, ok)
        node = E.node_of(st, p.obj)
        E.assume(st, eq(E.read_node(st, node, add(p.off, n)), 0, 8))
        E.add_fact(st, node, p.off, add(p.off, n), lambda s, j, v: b_not(eq(v, 0, 8)))
        return n

    def errno_obj(E, st):
        o = getattr(E, "errno_id", None)
        if o is None:
            o = E.errno_id = E.new_obj("errno", 4, 'errno').id
        if o not in st.mem:
            st.mem[o] = OState(NSym("errno"))
        return Ptr(o, 0)

    @model("__errno_location")
    def _(E, st, I, a, f):
        return errno_obj(E, st)

    def set_errno(E, st, v):
        p = errno_obj(E, st)
        E.put(st, p.obj, st.mem[p.obj], 0, 4, v)
    E.set_errno = lambda st, v: set_errno(E, st, v)

    def isdig(v):
        if type(v) is int:
            return 48 <= v <= 57
        return z3.And(z3.UGE(v, 48), z3.ULE(v, 57))

    def iswsp(v):
        if type(v) is int:
            return v in (32, 9, 10, 11, 12, 13)
        return z3.Or(v == 32, z3.And(z3.UGE(v, 9), z3.ULE(v, 13)))

    def ctype(pred):
        def h(E, st, I, a, f):
            return ite(pred(trunc(a[0], 32, 8) if type(a[0]) is not int else a[0] & 255), 1, 0, 32)
        return h
    M["isspace"] = ctype(iswsp)
    M["isdigit"] = ctype(isdig)
    E.iswsp = iswsp

    def decfun(node):
        return z3.Function(f"dec!{node.id}", BV64, BV64, BV64)

    def dec_ovf(node):
        return z3.Function(f"decovf!{node.id}", BV64, BV64, z3.BoolSort())

    def run_of(E, st, p, pred, what):
        """k maximal such that pred holds on [p, p+k); reading stops at p+k, which must be readable"""
        node = E.node_of(st, p.obj)
        k = fresh("sz!run", 64)
        pos = add(p.off, k)
        size = E.meta[p.obj].size
        # the first byte not satisfying pred, or the end of the object
        E.assume(st, ule(k, sub(size, p.off)))
        E.add_fact(st, node, p.off, pos, lambda s, j, v: sbool(pred(v)) if type(pred(v)) is not bool else pred(v))
        E.obligation(st, ult(pos, size), "safety", f"{what}: reads past the end of {E.meta[p.obj].name}")
        E.assume(st, b_not(pred(E.read_node(st, node, pos))))
        if not E.feasible(st):
            raise PathEnd()
        return k, Ptr(p.obj, pos), node

    def parse_number(E, st, p, end, base, what):
        if base != 10:
            raise Unsupported("strtoull base")
        E.check_access(st, p, 1, what)
        node = E.node_of(st, p.obj)
        b0 = E.read_node(st, node, p.off)
        q = p
        neg = False
        if not E.branch(st, isdig(b0)):
            if E.branch(st, iswsp(b0)):
                k, q, _ = run_of(E, st, p, iswsp, what)
                b0 = E.read_node(st, node, q.off)
            if E.branch(st, b_or(eq(b0, 43, 8), eq(b0, 45, 8))):
                neg = E.branch(st, eq(b0, 45, 8))
                q = Ptr(q.obj, add(q.off, 1))
                E.obligation(st, ult(q.off, E.meta[q.obj].size), "safety", f"{what}: reads past the end")
                b0 = E.read_node(st, node, q.off)
            if not E.branch(st, isdig(b0)):
                if end.obj:
                    E.put(st, end.obj, E.check_access(st, end, 8, what, True), end.off, 8, p)
                return 0
        k, e, _ = run_of(E, st, q, isdig, what)
        E.assume(st, z3.UGE(bv(k, 64), 1))
        if end.obj:
            E.put(st, end.obj, E.check_access(st, end, 8, what, True), end.off, 8, e)
        ovf = dec_ovf(node)(bv(q.off, 64), bv(k, 64))
        if E.branch(st, ovf):
            set_errno(E, st, 34)
            return M64
        v = decfun(node)(bv(q.off, 64), bv(k, 64))
        # values of short digit strings are exact; longer ones stay uninterpreted
        d = [E.read_node(st, node, add(q.off, i)) for i in range(1)]
        E.assume(st, b_imp(eq(k, 1), eq(v, simp(z3.ZeroExt(56, bv(d[0], 8)) - 48))))
        if neg:
            return simp(-v)
        return v
    E.decfun, E.dec_ovf, E.isdig, E.dec_queries = decfun, dec_ovf, isdig, {}

    @model("strtoull", "__isoc23_strtoull", "strtoul", "__isoc23_strtoul")
    def _(E, st, I, a, f):
        return parse_number(E, st, a[0], a[1], a[2], "strtoull")

    @model("vf_dec")
    def _(E, st, I, a, f):
        """value denoted by the decimal digits [p, p+n) (n >= 1), uninterpreted"""
        node = E.node_of(st, a[0].obj)
        E.dec_queries.setdefault(node.id, []).append((a[0].off, a[1]))
        return decfun(node)(bv(a[0].off, 64), bv(a[1], 64))

    @model("vf_dec_fits")
    def _(E, st, I, a, f):
        node = E.node_of(st, a[0].obj)
        E.dec_queries.setdefault(node.id, []).append((a[0].off, a[1]))
        return z3.Not(dec_ovf(node)(bv(a[0].off, 64), bv(a[1], 64)))

    # ------------------------------------------------------------ decimal output
    # the decimal representation of a 64-bit unsigned value, as two functions
    udlen = z3.Function("udec!len", BV64, BV64)
    udbyte = z3.Function("udec!byte", BV64, BV64, BV8)

    def ud_len(E, st, x):
        if type(x) is int:
            return len(str(x))
        n = udlen(x)
        E.assume(st, b_and(ule(1, n), ule(n, 20), b_imp(ult(x, 1 << 32), ule(n, 10)), b_imp(ult(x, 1 << 16), ule(n, 5)),
                           eq_b(ult(x, 10), eq(n, 1))))
        return n

    def eq_b(a, b):
        if type(a) is bool and type(b) is bool:
            return a == b
        return sbool((a if not type(a) is bool else z3.BoolVal(a)) == (b if not type(b) is bool else z3.BoolVal(b)))

    class NDec(Node):
        __slots__ = ("x",)

        def __init__(self, x):
            Node.__init__(self)
            self.x = x

        def read(self, E, st, idx):
            if type(self.x) is int:
                d = str(self.x).encode()
                if type(idx) is int:
                    return d[idx] if idx < len(d) else 0
                v = z3.BitVecVal(0, 8)
                for k in range(len(d)):
                    v = z3.If(bv(idx, 64) == k, z3.BitVecVal(d[k], 8), v)
                return simp(v)
            v = udbyte(self.x, bv(idx, 64))
            E.assume(st, b_imp(ult(idx, udlen(self.x)), isdig(v)))
            return v

    def ud_node(E, st, x):
        n = ud_len(E, st, x)
        tmp = E.new_obj("decimal", n, 'heap')
        st.mem[tmp.id] = OState(NDec(x))
        return tmp.id, n

    @model("vf_udec_len")
    def _(E, st, I, a, f):
        return ud_len(E, st, a[0])

    @model("vf_udec_byte")
    def _(E, st, I, a, f):
        """i-th character of the decimal representation of a[0]"""
        return NDec(a[0]).read(E, st, a[1])

    def format_pieces(E, st, fmt, args, I):
        """pieces of the output: ('lit', bytes) or ('obj', object id, length)"""
        out = []
        i = 0
        args = list(args)
        tys = list(I.args)
        while i < len(fmt):
            c = fmt[i:i + 1]
            if c != b"%":
                j = fmt.find(b"%", i)
                j = len(fmt) if j < 0 else j
                out.append(('lit', fmt[i:j]))
                i = j
                continue
            m = re.match(rb"%(hh|h|ll|l|z|j|t)?([udisc%])", fmt[i:])
            if not m:
                raise Unsupported(f"format {fmt!r}")
            i += m.end()
            mod, conv = m.group(1) or b"", m.group(2)
            if conv == b"%":
                out.append(('lit', b"%"))
                continue
            v = args.pop(0)
            if conv == b"s":
                n = M["strlen"](E, st, I, [v], None)
                out.append(('ptr', v, n))
                continue
            w = 64 if mod in (b"l", b"ll", b"z", b"j", b"t") else 32
            if type(v) is not int and v.size() != w:
                v = trunc(v, v.size(), w) if v.size() > w else zext(v, v.size(), w)
            if type(v) is int:
                v &= mask(w)
            if conv == b"c":
                tmp = E.new_obj("char", 1, 'heap')
                st.mem[tmp.id] = OState(NZero(), {0: (1, trunc(v, w, 8))})
                out.append(('ptr', Ptr(tmp.id, 0), 1))
                continue
            if mod in (b"h", b"hh"):
                nw = 16 if mod == b"h" else 8
                v = zext(trunc(v, w, nw), nw, w) if conv == b"u" else sext(trunc(v, w, nw), nw, w)
            if conv != b"u":
                if (v >> (w - 1)) if type(v) is int else E.branch(st, sbool(v < 0)):
                    out.append(('lit', b"-"))
                    v = sub(0, v, w)
            if w == 32:
                v = zext(v, 32, 64)
            oid, n = ud_node(E, st, v)
            out.append(('ptr', Ptr(oid, 0), n))
        return out

    def do_format(E, st, I, buf, size, fmtp, args):
        fmt = b""
        os = E.ostate(st, fmtp.obj)
        k = fmtp.off
        while True:
            b = E.read_bytes(st, os, k, 1)[0]
            if type(b) is not int:
                raise Unsupported("format is not constant")
            if b == 0:
                break
            fmt += bytes([b])
            k += 1
        pieces = format_pieces(E, st, fmt, args, I)
        # put the pieces together in a temporary
        total = 0
        tmp = E.new_obj("formatted", 1 << 40, 'heap')
        st.mem[tmp.id] = OState(NSym("formatted"))
        for pc in pieces:
            if pc[0] == 'lit':
                for b in pc[1]:
                    E.put(st, tmp.id, st.mem[tmp.id], total, 1, b)
                    total = add(total, 1)
            else:
                E.memcpy(st, Ptr(tmp.id, total), pc[1], pc[2], "snprintf")
                total = add(total, pc[2])
        if type(size) is int and size == 0:
            return trunc(total, 64, 32)
        fits = True if size is None else E.branch(st, ult(total, size))
        n = total if fits else sub(size, 1)
        E.memcpy(st, buf, Ptr(tmp.id, 0), n, "snprintf")
        q = Ptr(buf.obj, add(buf.off, n))
        E.put(st, q.obj, E.check_access(st, q, 1, "snprintf", True), q.off, 1, 0)
        return trunc(total, 64, 32)

    @model("snprintf", "__snprintf_chk")
    def _(E, st, I, a, f):
        return do_format(E, st, I, a[0], a[1], a[2], a[3:])

    @model("sprintf")
    def _(E, st, I, a, f):
        return do_format(E, st, I, a[0], None, a[1], a[2:])

    # ------------------------------------------------------------ exceptions
    @model("__cxa_allocate_exception")
    def _(E, st, I, a, f):
        p = E.alloc(st, "exception", a[0], 'heap')
        return p

    @model("__cxa_free_exception")
    def _(E, st, I, a, f):
        return None

    @model("__cxa_throw")
    def _(E, st, I, a, f):
        st.ghost[('ti', a[0].obj)] = E.meta[a[1].obj].name
        raise Throw(a[0], E.meta[a[1].obj].name)

    @model("__cxa_begin_catch")
    def _(E, st, I, a, f):
        st.caught.append(a[0])
        return a[0]

    @model("__cxa_end_catch")
    def _(E, st, I, a, f):
        if st.caught:
            st.caught.pop()

    @model("__cxa_rethrow")
    def _(E, st, I, a, f):
        p = st.caught[-1]
        raise Throw(p, st.ghost[('ti', p.obj)])

    @model("__cxa_get_exception_ptr")
    def _(E, st, I, a, f):
        return a[0]

    @model("__cxa_guard_acquire")
    def _(E, st, I, a, f):
        os = E.check_access(st, a[0], 1, "guard")
        b = E.read_bytes(st, os, a[0].off, 1)[0]
        return 0 if (type(b) is int and b & 1) else 1

    @model("__cxa_guard_release")
    def _(E, st, I, a, f):
        E.put(st, a[0].obj, E.ostate(st, a[0].obj), a[0].off, 1, 1)

    @model("__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit")
    def _(E, st, I, a, f):
        return 0

    @model("__cxa_pure_virtual")
    def _(E, st, I, a, f):
        E.fail(st, "safety", "pure virtual call")

    def exc_ctor(E, st, I, a, f):
        return None
    pattern(r"^std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception|domain_error|bad_alloc|system_error)::~?(runtime_error|logic_error|out_of_range|invalid_argument|length_error|exception|domain_error|bad_alloc|system_error)\(")(exc_ctor)

    def throw_std(ti):
        def h(E, st, I, a, f):
            p = E.alloc(st, "exception", 16, 'heap')
            st.ghost[('ti', p.obj)] = ti
            raise Throw(p, ti)
        return h
    model("_ZSt20__throw_length_errorPKc")(throw_std("_ZTISt12length_error"))
    model("_ZSt19__throw_logic_errorPKc")(throw_std("_ZTISt11logic_error"))
    model("_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz")(throw_std("_ZTISt12out_of_range"))
    model("_ZSt24__throw_invalid_argumentPKc")(throw_std("_ZTISt16invalid_argument"))
    model("_ZSt25__throw_bad_function_callv")(throw_std("_ZTISt17bad_function_call"))
    model("_ZSt20__throw_system_errori")(throw_std("_ZTISt12system_error"))
    model("_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv")(throw_std("_ZTISt9bad_alloc"))

    # ------------------------------------------------------------ pthread
    def lockkey(p):
        return ('mutex', p.obj, p.off if type(p.off) is int else p.off.get_id())

    @model("pthread_mutex_lock")
    def _(E, st, I, a, f):
        k = lockkey(a[0])
        E.obligation(st, not st.ghost.get(k), "safety", "mutex locked twice by one thread")
        st.ghost[k] = True
        st.ghost['held'] = st.ghost.get('held', 0) + 1
        return 0

    @model("pthread_mutex_trylock")
    def _(E, st, I, a, f):
        k = lockkey(a[0])
        if E.branch(st, z3.Bool(f"trylock!{fresh_id()}")):
            st.ghost[k] = True
            st.ghost['held'] = st.ghost.get('held', 0) + 1
            return 0
        return 16

    @model("pthread_mutex_unlock")
    def _(E, st, I, a, f):
        k = lockkey(a[0])
        E.obligation(st, bool(st.ghost.get(k)), "safety", "mutex unlocked while not held")
        st.ghost[k] = False
        st.ghost['held'] = st.ghost.get('held', 0) - 1
        return 0

    @model("vf_mutex_held")
    def _(E, st, I, a, f):
        return bool(st.ghost.get(lockkey(a[0])))

    @model("vf_mutexes_held")
    def _(E, st, I, a, f):
        return st.ghost.get('held', 0)

    @model("pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy",
           "pthread_cond_signal", "pthread_cond_broadcast", "_ZNSt18condition_variableC1Ev",
           "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variable10notify_oneEv",
           "_ZNSt18condition_variable10notify_allEv")
    def _(E, st, I, a, f):
        return 0

    @model("pthread_self")
    def _(E, st, I, a, f):
        return 1

    @model("__gthread_active_p", "_ZL18__gthread_active_pv")
    def _(E, st, I, a, f):
        return 1

    # ------------------------------------------------------------ opaque C++ runtime
    def ret0(E, st, I, a, f):
        return a[0] if a and I.ty.kind == 'ptr' else (None if I.ty.kind == 'void' else E.undef_of(I.ty))

    # logging and stream formatting are outside the proofs: no effect on modelled state
    pattern(r"^(std::basic_ostream|std::ostream|std::basic_ostringstream|std::__cxx11::basic_ostringstream|"
            r"std::basic_ios|std::ios_base|std::basic_ostream<char, std::char_traits<char> >& std::|std::setw|std::setfill|"
            r"std::operator<<|std::locale|std::basic_streambuf|std::basic_stringbuf|std::__cxx11::basic_stringbuf)")(ret0)
    pattern(r"^std::ostream& std::")(ret0)
    @pattern(r"^cybozu::logger::(error|warning|info|debug)\(\)")
    def _(E, st, I, a, f):
        E.memset(st, a[0], 0, 16, "logstream")      # a stream that logs nothing
        return None

    pattern(r"^cybozu::logger::")(ret0)
    pattern(r"^cybozu::logstream::output")(ret0)
    pattern(r"^std::_V2::(system|generic)_category\(\)")(lambda E, st, I, a, f: NULL)
    pattern(r"^cybozu::severity_to_string|^cybozu::dump_stack")(ret0)

    @pattern(r"^TLS init function for ")
    def _(E, st, I, a, f):
        return None     # constant initialisers need none

    @pattern(r"^cybozu::demangle\(")
    def _(E, st, I, a, f):
        raise Unsupported("demangle")

    M['*patterns'] = pats
    return M
