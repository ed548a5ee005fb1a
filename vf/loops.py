"""Loop rule: havoc what the loop modifies, assume an inductive invariant, check
that one arbitrary iteration re-establishes it, continue from the exits.

Invariants are found by Houdini: a finite set of candidate facts (equalities,
orderings between loop variables and live values, lock-step relations, scan
facts about the bytes passed over, and any harness-supplied hint) is pruned to
the largest subset that holds on entry and is preserved by every path through
the body.  Nothing is assumed that has not been proved inductive.
"""
import z3
from . import llvm as LL
from .values import *
from .engine import Unsupported, PathEnd, OState, DEMANGLE


ENG = [None]


class Var:
    """a loop-modified location: phi register or memory cell"""
    __slots__ = ("kind", "slot", "obj", "off", "size", "isptr", "width", "init", "isbool", "dead")

    def key(self):
        return (self.kind, self.slot, self.obj, self.off, self.size)

    def get(self, st):
        if self.kind == 'phi':
            return st.frames[-1].regs[self.slot]
        os = st.mem[self.obj]
        c = os.cells.get(self.off)
        if c is not None and c[0] == self.size:
            return c[1]
        if self.isptr:
            return None
        return from_bytes(ENG[0].read_bytes(st, os, self.off, self.size))

    def __repr__(self):
        return f"{self.kind}:{self.slot if self.kind == 'phi' else (self.obj, self.off, self.size)}"


def scalar(v):
    return v.off if isinstance(v, Ptr) else v


def cut(E, S, h):
    ENG[0] = E
    f = S.frames[-1]
    fn = f.fn
    body = LL.loops_of(fn)[h]
    stop = (f.uid, h, body)
    key = (fn.name, h)
    lname = f"{DEMANGLE.get(fn.name, fn.name)} loop at block {h}"
    phis = fn.blocks[h].phis
    vars_ = {}

    def add_phi(ph):
        v = Var()
        v.kind, v.slot, v.obj, v.off, v.size = 'phi', ph.dst, None, None, None
        val = f.regs[ph.dst]
        v.init = val
        v.isptr = isinstance(val, Ptr)
        v.isbool = ph.ty.kind == 'int' and ph.ty.width == 1
        v.width = ph.ty.width
        vars_[v.key()] = v

    for ph in phis:
        add_phi(ph)
    arrs = {}      # obj -> set of modified-array markers
    E.active.append((f.uid, h))
    saved_checks, saved_log = E.checks, E.loadlog
    saved_copy = E.copylog
    copies = []
    readobjs = set()
    hints = E.opts.get("hints", {})
    try:
        E.checks = False
        # ---- discover what the body modifies
        loads = {}
        for _round in range(12):
            H = havoc(E, S, vars_, arrs)
            E.loadlog = {}
            E.copylog = []
            E.bytesrc = {}
            evs = E.explore(H.clone(), stop)
            loads.update(E.loadlog)
            copies += [(d, s, H) for d, s in E.copylog]
            readobjs |= {x[0].obj for x in E.bytesrc.values()}
            if saved_copy is not None:
                saved_copy += E.copylog
            new = False
            for kind, B in evs:
                if kind != 'back':
                    continue
                for ph in phis:
                    a, b = H.frames[-1].regs[ph.dst], B.frames[-1].regs[ph.dst]
                    if isinstance(a, Ptr) and (not isinstance(b, Ptr) or a.obj != b.obj):
                        raise Unsupported(f"{lname}: pointer changes object across iterations")
                for oid, os in H.mem.items():
                    nb = B.mem.get(oid)
                    if nb is os:
                        continue
                    if nb is None or nb.alive != os.alive:
                        raise Unsupported(f"{lname}: object freed in loop")
                    if oid not in S.mem:
                        continue
                    for off in set(os.cells) | set(nb.cells):
                        c0, c1 = os.cells.get(off), nb.cells.get(off)
                        if c0 is c1 or c0 == c1:
                            continue
                        c = c1 or c0
                        if c0 and c1 and c0[0] != c1[0]:
                            raise Unsupported(f"{lname}: cell size changes")
                        if c0 and c1 and same(c0[1], c1[1]):
                            continue
                        k = ('cell', None, oid, off, c[0])
                        if k in vars_ or oid in arrs:
                            continue
                        v = Var()
                        v.kind, v.slot, v.obj, v.off, v.size = k
                        s0 = S.mem[oid]
                        ci = s0.cells.get(off)
                        if ci is not None and ci[0] == c[0]:
                            v.init = ci[1]
                        else:
                            v.init = from_bytes(E.read_bytes(S, s0, off, c[0]))
                        v.isptr = isinstance(c[1], Ptr)
                        v.isbool = False
                        v.dead = False
                        v.width = 8 * c[0]
                        if isinstance(c1[1] if c1 else None, Ptr) != isinstance(v.init, Ptr):
                            if not (v.isptr and type(v.init) is int and v.init == 0):
                                # set anew in each iteration: must not be read before
                                v.dead = True
                                v.isptr = False
                        if v.isptr and isinstance(v.init, Ptr) and c1 and c1[1].obj != v.init.obj:
                            raise Unsupported(f"{lname}: pointer cell changes object across iterations")
                        vars_[k] = v
                        new = True
                    if nb.base is not os.base and oid not in arrs:
                        arrs[oid] = True
                        new = True
            if not new:
                break
        else:
            raise Unsupported(f"{lname}: modified set does not stabilise")
        E.loadlog = E.copylog = None

        cands = candidates(E, S, f, fn, body, vars_, arrs, loads, copies, readobjs)
        # ---- initiation
        S1 = S.clone()
        cands = filter_implied(E, S1, S, [c for c in cands if not isinstance(c, DecCand)]) + \
            [c for d in cands if isinstance(d, DecCand) for c in filter_implied(E, S1, S, [d])]
        # ---- consecution (Houdini): facts about scalars first, then about arrays given those
        contents = [c for c in cands if isinstance(c, (FrameCand, FillCand, CopyCand))]
        cands = [c for c in cands if not isinstance(c, (FrameCand, FillCand, CopyCand))]
        fixed = []
        for _phase in range(2):
            for _round in range(60):
                H = havoc(E, S, vars_, arrs)
                try:
                    for c in fixed + cands:
                        c.assume(E, H, S)
                except PathEnd:
                    break
                evs = E.explore(H.clone(), stop)
                n0 = len(cands)
                for kind, B in evs:
                    if kind == 'back':
                        cands = filter_implied(E, B, S, cands)
                if len(cands) == n0:
                    break
            if _phase == 0:
                if not contents:
                    break
                fixed = irredundant(E, S, vars_, arrs, cands)
                cands = contents
        cands = fixed + cands
        cands = irredundant(E, S, vars_, arrs, cands)
        # ---- final pass with obligations on
        E.checks = saved_checks
        H = havoc(E, S, vars_, arrs)
        for c in cands:
            c.assume(E, H, S)
        H.model = None
        if not E.feasible(H):
            raise PathEnd()
        evs = E.explore(H, stop)
        out = []
        for kind, B in evs:
            if kind == 'back':
                if E.checks:
                    B2 = B.clone()
                    B2.model = None
                    SK[0] = None
                    E.noquick = True
                    gs = [c.holds(E, B2, S) for c in cands]
                    E.noquick = False
                    gs = [g for g in gs if g is not True]
                    if gs:
                        try:
                            E.obligation(B2, b_and(*gs), "invariant", "loop invariant preserved")
                        except PathEnd:
                            pass
                continue
            out.append(B)
        E.loops_cut.setdefault(key, set()).update(str(c) for c in cands)
        return out
    except PathEnd:
        return []
    finally:
        E.checks, E.loadlog = saved_checks, saved_log
        E.copylog = saved_copy
        E.active.pop()


SK = [None]


def skolem():
    """one arbitrary index, shared by the candidates that are checked together"""
    if SK[0] is None:
        SK[0] = z3.BitVec(f"sk!{fresh_id()}", 64)
    return SK[0]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and (a.off is b.off or eq(a.off, b.off) is True)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return False
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int or type(b) is int:
        return False
    return a.eq(b)


def filter_implied(E, st, S, cands):
    """the candidates that hold in st: refute in batches with models"""
    todo = []
    keep = []
    SK[0] = None
    E.noquick = True
    try:
        for c in cands:
            g = c.holds(E, st, S)
            if g is True:
                keep.append(c)
            elif g is not False:
                todo.append((c, g))
    finally:
        E.noquick = False
    while todo:
        r, m = E.solver.check(st.pc, z3.Not(b_and(*[g for _, g in todo])) if len(todo) > 1 else z3.Not(todo[0][1]), 4000)
        if r == 'unsat':
            keep += [c for c, _ in todo]
            break
        if r == 'sat':
            t2 = [(c, g) for c, g in todo if m.val(g)]
            if len(t2) < len(todo):
                todo = t2
                continue
        # undecided as a batch: one at a time
        for c, g in todo:
            r, _ = E.solver.check(st.pc, z3.Not(g), 3000)
            if r == 'unsat':
                keep.append(c)
        break
    order = {id(c): i for i, c in enumerate(cands)}
    keep.sort(key=lambda c: order[id(c)])
    return keep


def irredundant(E, S, vars_, arrs, cands):
    """drop candidates that follow from the others alone (keeps path conditions short)"""
    plain = [c for c in cands if type(c) is Cand]
    if len(plain) < 3:
        return cands
    H = havoc(E, S, vars_, arrs)
    gs = []
    for c in plain:
        g = c.holds(E, H, S)
        if type(g) is bool:
            continue
        gs.append((c, g))
    drop = set(id(c) for c in plain) - set(id(c) for c, _ in gs)
    i = len(gs) - 1
    tr = E.solver.tr
    s = z3.Solver()
    s.set("timeout", 300)
    fs = []
    for c, g in gs:
        f, side, h, ws = tr.constraint(g)
        for _, o in side:
            s.add(*o)
        fs.append(f)
    alive = [True] * len(gs)
    ps = [z3.Bool(f"ir!{fresh_id()}") for _ in gs]
    for p, f in zip(ps, fs):
        s.add(z3.Implies(p, f))
    for i in range(len(gs) - 1, -1, -1):
        alive[i] = False
        s.push()
        s.add(z3.Not(fs[i]))
        r = s.check(*[p for p, a in zip(ps, alive) if a])
        s.pop()
        if r != z3.unsat:
            alive[i] = True
        else:
            drop.add(id(gs[i][0]))
    return [c for c in cands if id(c) not in drop]


def havoc(E, S, vars_, arrs):
    H = S.clone()
    f = H.frames[-1]
    for v in vars_.values():
        n = fresh_id()
        if v.kind != 'phi' and v.dead:
            val = DEAD
        elif v.isptr:
            o = v.init.obj if isinstance(v.init, Ptr) else 0
            if o == 0:
                raise Unsupported("null pointer loop variable becomes a pointer")
            val = Ptr(o, z3.BitVec(f"lp!{n}", 64))
        elif isinstance(v.init, (FP, Agg)):
            val = E.undef_of(next(p.ty for p in f.fn.blocks[f.bi].phis if p.dst == v.slot))
        elif v.isbool:
            val = z3.Bool(f"lb!{n}")
        else:
            val = z3.BitVec(f"lv!{n}", v.width)
        if v.kind == 'phi':
            f.regs[v.slot] = val
        else:
            os = H.mem[v.obj]
            cells = dict(os.cells)
            E.clear_range(H, os, cells, v.off, v.size)
            cells[v.off] = (v.size, val)
            H.mem[v.obj] = OState(os.base, cells, os.alive)
    for oid in arrs:
        os = H.mem[oid]
        cells = {k: c for k, c in os.cells.items() if isinstance(c[1], Ptr) or ('cell', None, oid, k, c[0]) in vars_}
        H.mem[oid] = OState(NSym(f"la_{E.meta[oid].name}"), cells, os.alive)
    return H


class Cand:
    def __init__(self, text, fn):
        self.text, self.fn = text, fn

    def __str__(self):
        return self.text

    def holds(self, E, st, S):
        try:
            return sbool(self.fn(E, st, S))
        except (KeyError, AttributeError, TypeError, z3.Z3Exception):
            return False

    def assume(self, E, st, S):
        E.assume(st, self.fn(E, st, S))


class ScanCand(Cand):
    """every byte of node in [init, v) satisfies pred"""
    def __init__(self, text, var, oid, node, lo, pred, base=None):
        self.text, self.var, self.oid, self.node, self.lo, self.pred, self.base = text, var, oid, node, lo, pred, base

    def hi(self, st):
        v = self.var.get(st)
        return v.off if self.base is None else add(self.base, v)

    def holds(self, E, st, S):
        k = skolem()
        val = E.read_node(st, self.node, k)
        return b_imp(b_and(ule(self.lo, k), ult(k, self.hi(st))), self.pred(val))

    def assume(self, E, st, S):
        p = self.pred
        E.add_fact(st, self.node, self.lo, self.hi(st), lambda s, j, val: p(val))


class DecCand(Cand):
    """v is the value of the decimal digits node[lo, base + u) (mod 2^64); or: that value fits 64 bits"""
    def __init__(self, text, v, u, node, base, lo, fits):
        self.text, self.v, self.u, self.node, self.base, self.lo, self.fits = text, v, u, node, base, lo, fits

    def axioms(self, E, st, k, guard=True):
        lo, node = self.lo, self.node
        D, O = E.decfun(node), E.dec_ovf(node)
        lob = bv(lo, 64)
        E.assume(st, eq(D(lob, bv(0, 64)), 0))
        E.assume(st, z3.Not(O(lob, bv(0, 64))))
        d = E.read_node(st, node, add(lo, k))
        d64 = sub(zext(d, 8, 64), 48)
        k0, k1 = bv(k, 64), bv(add(k, 1), 64)
        a = D(lob, k0)
        E.assume(st, b_imp(b_and(guard, E.isdig(d)), b_and(eq(D(lob, k1), add(mul(a, 10), d64)),
                 sbool(O(lob, k1) == z3.Or(O(lob, k0), z3.UGT(a, M64 // 10), z3.And(a == M64 // 10, z3.UGT(bv(d64, 64), M64 % 10)))))))
        for off, n in E.dec_queries.get(node.id, []):
            same_ = eq(off, lo)
            if same_ is not False:
                for j in (k0, k1):
                    E.assume(st, b_imp(b_and(same_, ule(j, n), O(lob, j)), O(bv(off, 64), bv(n, 64))))

    def term(self, E, st):
        k = sub(add(self.base, scalar(self.u.get(st))), self.lo)
        if self.fits:
            return k, sbool(z3.Not(E.dec_ovf(self.node)(bv(self.lo, 64), bv(k, 64))))
        return k, eq(scalar(self.v.get(st)), E.decfun(self.node)(bv(self.lo, 64), bv(k, 64)))

    def holds(self, E, st, S):
        k, g = self.term(E, st)
        if self.first:      # initiation: unfold the last digit
            self.axioms(E, st, sub(k, 1), b_not(eq(k, 0)))
        return g

    def assume(self, E, st, S):
        self.first = False
        k, g = self.term(E, st)
        E.assume(st, g)
        self.axioms(E, st, k)
    first = True


class FrameCand(Cand):
    """bytes of a modified array outside [lo, v) (or all with index >= v / < lo) keep their value"""
    def __init__(self, text, oid, old, lofn, hifn):
        self.text, self.oid, self.old, self.lofn, self.hifn = text, oid, old, lofn, hifn

    def holds(self, E, st, S):
        k = skolem()
        node = E.node_of(st, self.oid)
        out = b_or(ult(k, self.lofn(st)), ule(self.hifn(st), k))
        return b_imp(b_and(out, ult(k, E.meta[self.oid].size)),
                     eq(E.read_node(st, node, k), E.read_node(st, self.old, k), 8))

    def assume(self, E, st, S):
        node = E.node_of(st, self.oid)
        old = self.old
        E.add_fact(st, node, 0, self.lofn(st), lambda s, j, val: eq(val, E.read_node(s, old, j), 8))
        E.add_fact(st, node, self.hifn(st), M64, lambda s, j, val: eq(val, E.read_node(s, old, j), 8))


class FillCand(Cand):
    """bytes of a modified array in [lo, hi) equal c"""
    def __init__(self, text, oid, lofn, hifn, c):
        self.text, self.oid, self.lofn, self.hifn, self.c = text, oid, lofn, hifn, c

    def holds(self, E, st, S):
        k = skolem()
        node = E.node_of(st, self.oid)
        return b_imp(b_and(ule(self.lofn(st), k), ult(k, self.hifn(st))), eq(E.read_node(st, node, k), self.c, 8))

    def assume(self, E, st, S):
        node = E.node_of(st, self.oid)
        c = self.c
        E.add_fact(st, node, self.lofn(st), self.hifn(st), lambda s, j, val: eq(val, c, 8))


def isbytes(E, S, oid):
    """can be folded to a plain byte sequence"""
    os = S.mem[oid]
    return not any(isinstance(c[1], (Ptr, FP)) for c in os.cells.values())


def a_w(a):
    return 64 if isinstance(a, Ptr) or type(a) is int else a.size()


class CopyCand(Cand):
    """bytes of a modified array in [lo, hi) equal the bytes of src from s0 on"""
    def __init__(self, text, oid, lo, hifn, src, s0):
        self.text, self.oid, self.lo, self.hifn, self.src, self.s0 = text, oid, lo, hifn, src, s0

    def holds(self, E, st, S):
        k = skolem()
        node = E.node_of(st, self.oid)
        return b_imp(b_and(ule(self.lo, k), ult(k, self.hifn(st))),
                     eq(E.read_node(st, node, k), E.read_node(st, self.src, add(sub(k, self.lo), self.s0)), 8))

    def assume(self, E, st, S):
        node = E.node_of(st, self.oid)
        lo, src, s0 = self.lo, self.src, self.s0
        E.add_fact(st, node, lo, self.hifn(st), lambda s, j, val: eq(val, E.read_node(s, src, add(sub(j, lo), s0)), 8))


def candidates(E, S, f, fn, body, vars_, arrs, loads, copies, readobjs):
    out = []
    vs = [v for v in vars_.values() if not isinstance(v.init, (FP, Agg)) and not (v.kind != 'phi' and v.dead)]
    # live scalars that the loop does not modify
    live = []
    seen = set()

    def addlive(name, val, w, obj):
        k = (val if type(val) is int else val.get_id(), w, obj)
        if k in seen:
            return
        seen.add(k)
        live.append((name, val, w, obj))
    for slot, val in enumerate(f.regs):
        if val is None or ('phi', slot, None, None, None) in vars_:
            continue
        nm = fn.varnames.get(slot, f"%{slot}")
        if isinstance(val, Ptr) and val.obj > 0:
            addlive(nm, val.off, 64, val.obj)
        elif type(val) is int or (isinstance(val, z3.BitVecRef)):
            w = None
            if not type(val) is int:
                w = val.size()
            addlive(nm, val, w, None)
    for (oid, off, size) in loads:
        if ('cell', None, oid, off, size) in vars_ or oid in arrs or oid not in S.mem:
            continue
        c = S.mem[oid].cells.get(off)
        if c is None or c[0] != size:
            continue
        if isinstance(c[1], Ptr):
            if c[1].obj > 0:
                addlive(f"cell{oid}+{off}", c[1].off, 64, c[1].obj)
        elif not isinstance(c[1], FP):
            addlive(f"cell{oid}+{off}", c[1], 8 * size, None)
    objs = {v.init.obj for v in vs if v.isptr and isinstance(v.init, Ptr)}
    for o in objs:
        addlive(f"size({E.meta[o].name})", E.meta[o].size, 64, o)

    def S_(x):
        return scalar(x)

    for v in vs:
        if v.isbool:
            out.append(Cand(f"{v} == initial", lambda E, st, S0, v=v: E.cmp_bool(v.get(st), v.init)))
            continue
        w = v.width
        i0 = S_(v.init)
        out.append(Cand(f"{v} == initial", lambda E, st, S0, v=v, i0=i0, w=w: eq(S_(v.get(st)), i0, w)))
        out.append(Cand(f"{v} >= initial", lambda E, st, S0, v=v, i0=i0, w=w: ule(i0, S_(v.get(st)), w)))
        out.append(Cand(f"{v} <= initial", lambda E, st, S0, v=v, i0=i0, w=w: ule(S_(v.get(st)), i0, w)))
        for b in (2, 3):
            if w > 8:
                out.append(Cand(f"{v} == initial mod {1 << b}", lambda E, st, S0, v=v, i0=i0, w=w, b=b:
                                eq(E.i_and(sub(S_(v.get(st)), i0, w), (1 << b) - 1, w), 0, w)))
        for name, x, xw, obj in live:
            if obj is not None and (not v.isptr or v.init.obj != obj):
                continue
            if obj is None and v.isptr:
                continue
            if xw is not None and xw != w:
                continue
            if type(x) is int and x > mask(w):
                continue
            out.append(Cand(f"{v} <= {name}", lambda E, st, S0, v=v, x=x, w=w: ule(S_(v.get(st)), x, w)))
            if type(x) is not int:
                out.append(Cand(f"{v} >= {name}", lambda E, st, S0, v=v, x=x, w=w: ule(x, S_(v.get(st)), w)))
                out.append(Cand(f"{v} < {name}", lambda E, st, S0, v=v, x=x, w=w: ult(S_(v.get(st)), x, w)))
    for i, v in enumerate(vs):
        for u in vs[i + 1:]:
            if v.isbool or u.isbool or v.width != u.width:
                continue
            w = v.width
            a0, b0 = S_(v.init), S_(u.init)
            out.append(Cand(f"{v} - {u} constant", lambda E, st, S0, v=v, u=u, a0=a0, b0=b0, w=w:
                            eq(sub(S_(v.get(st)), S_(u.get(st)), w), sub(a0, b0, w), w)))
            out.append(Cand(f"{v} + {u} constant", lambda E, st, S0, v=v, u=u, a0=a0, b0=b0, w=w:
                            eq(add(S_(v.get(st)), S_(u.get(st)), w), add(a0, b0, w), w)))
            if v.isptr == u.isptr and (not v.isptr or v.init.obj == u.init.obj):
                out.append(Cand(f"{v} <= {u}", lambda E, st, S0, v=v, u=u, w=w: ule(S_(v.get(st)), S_(u.get(st)), w)))
                out.append(Cand(f"{u} <= {v}", lambda E, st, S0, v=v, u=u, w=w: ule(S_(u.get(st)), S_(v.get(st)), w)))
    # scan facts
    consts = set()
    for b in body:
        for I in fn.blocks[b].insts:
            if I.op == 'icmp' and I.aty.kind == 'int' and I.aty.width in (8, 32):
                for o in I.args:
                    if type(o) is tuple and o[0] == 'c' and type(o[1]) is int and o[1] < 256:
                        consts.add(o[1])
            if I.op == 'switch' and I.aty.width in (8, 32):
                for c, _ in I.x[0]:
                    if c < 256:
                        consts.add(c)
    calls = {E.meta[I.x[0][1].obj].name for b in body for I in fn.blocks[b].insts if I.op in ('call', 'invoke')
             and type(I.x[0]) is tuple and isinstance(I.x[0][1], Ptr) and I.x[0][1].obj > 0}
    wsp = "isspace" in calls
    preds = []
    for c in sorted(consts):
        preds.append((f"== {c}", lambda x, c=c: eq(x, c, 8)))
        preds.append((f"!= {c}", lambda x, c=c: b_not(eq(x, c, 8))))
        for b in sorted(consts):
            if c < b:
                preds.append((f"in [{c},{b}]", lambda x, b=b, c=c: b_and(ule(c, x, 8), ule(x, b, 8))))
    if wsp:
        preds.append(("are white space", E.iswsp))
    if "isdigit" in calls:
        preds.append(("are digits", E.isdig))
    # pointers to unmodified bytes that are live at the header (at most a few)
    ptrs = {}
    for val in list(f.regs) + [S.mem[o].cells[c][1] for (o, c, z) in loads if o in S.mem and c in S.mem[o].cells]:
        if isinstance(val, Ptr) and val.obj > 0 and val.obj in S.mem and val.obj not in arrs and E.meta[val.obj].kind not in ('func', 'const') \
                and val.obj in readobjs and isbytes(E, S, val.obj):
            ptrs[(val.obj, val.off if type(val.off) is int else val.off.get_id())] = val
    ptrs = list(ptrs.values())[:6]
    for v in vs:
        if not v.isptr or not isinstance(v.init, Ptr) or v.init.obj in arrs:
            continue
        oid = v.init.obj
        node = E.node_of(S, oid)
        for t, pr in preds:
            out.append(ScanCand(f"bytes before {v} {t}", v, oid, node, v.init.off, pr))
    # index variables scanning what a live pointer points to
    for v in vs:
        if v.isptr or v.isbool or v.width != 64 or not (consts or wsp):
            continue
        for p in ptrs:
            if p.obj in arrs:
                continue
            node = E.node_of(S, p.obj)
            lo = add(p.off, v.init)
            for t, pr in preds:
                out.append(ScanCand(f"bytes of {E.meta[p.obj].name} before {v} {t}", v, p.obj, node, lo, pr, p.off))
    # decimal accumulators: v == value of the digits passed over
    muls = [o for b in body for I in fn.blocks[b].insts if I.op == 'mul' and any(type(o) is tuple and o[0] == 'c' and o[1] == 10 for o in I.args)
            for o in I.args if type(o) is int]
    if muls:
        for v in vs:
            if v.isptr or v.isbool or v.width != 64 or (v.kind == 'phi' and v.slot not in muls):
                continue
            for u in vs:
                if u is v or u.isbool or u.width != 64 or (u.kind == 'phi' and u.slot in muls):
                    continue
                for p in [Ptr(u.init.obj, 0)] if u.isptr else ptrs:
                    if p.obj in arrs or E.meta[p.obj].kind in ('func', 'const') or not isbytes(E, S, p.obj):
                        continue
                    node = E.node_of(S, p.obj)
                    base = p.off
                    los = [off for off, n in E.dec_queries.get(node.id, [])]
                    if type(v.init) is int and v.init == 0:
                        los.append(add(base, S_(u.init)))
                    for lo in {(x if type(x) is int else x.get_id()): x for x in los}.values():
                        out.append(DecCand(f"{v} is the decimal value of the bytes up to {u}", v, u, node, base, lo, False))
                        out.append(DecCand(f"the decimal value of the bytes up to {u} fits", v, u, node, base, lo, True))
    # modified arrays: frame and fill facts relative to pointer/index variables
    for oid in arrs:
        old = E.node_of(S, oid)
        for v in vs:
            if v.isbool or v.width != 64:
                continue
            if v.isptr and v.init.obj != oid:
                continue
            lo = S_(v.init)
            gets = [lambda st, v=v: S_(v.get(st))]
            out.append(FrameCand(f"only [{v}.initial,{v}) of {E.meta[oid].name} modified", oid, old,
                                 lambda st, lo=lo: lo, gets[0]))
            for c in consts | {0}:
                out.append(FillCand(f"[{v}.initial,{v}) of {E.meta[oid].name} == {c}", oid, lambda st, lo=lo: lo, gets[0], c))
    if arrs:
        # copies from an object the loop only reads
        srcs = {}

        def addsrc(p):
            if isinstance(p, Ptr) and p.obj > 0 and p.obj not in arrs and p.obj in S.mem:
                srcs.setdefault((p.obj, p.off if type(p.off) is int else p.off.get_id()), p)
        for v in vs:
            if v.isptr:
                addsrc(v.init)
        for slot, val in enumerate(f.regs):
            addsrc(val)
        for (oid, off, size) in loads:
            c = S.mem[oid].cells.get(off) if oid in S.mem else None
            if c is not None and size == 8:
                addsrc(c[1])
        for p in list(srcs.values()):
            addsrc(Ptr(p.obj, 0))
        # the copies the body makes, as seen at the loop's entry: source offset when dst is at its initial value
        deltas = {}
        for d, s_, H in copies:
            if d.obj not in arrs or s_.obj in arrs or s_.obj not in S.mem:
                continue
            x = sub(s_.off, d.off)
            if type(x) is not int:
                fr = [(v.get(H), v.init) for v in vs if not v.isbool]
                fr = [(S_(a), bv(S_(b), a_w(a))) for a, b in fr]
                x = simp(z3.substitute(x, *[(a, b) for a, b in fr if type(a) is not int]))
            k = (d.obj, s_.obj, x if type(x) is int else x.get_id())
            deltas[k] = (d.obj, s_.obj, x)
        for doid, soid, x in deltas.values():
            for v in vs:
                if v.isbool or v.width != 64 or (v.isptr and v.init.obj != doid) or not isbytes(E, S, soid):
                    continue
                out.append(CopyCand(f"[{v}.initial,{v}) of {E.meta[doid].name} copied from {E.meta[soid].name}, in step", doid, S_(v.init),
                                    lambda st, v=v: S_(v.get(st)), E.node_of(S, soid), add(S_(v.init), x)))
        for oid in arrs:
            for v in vs:
                if v.isbool or v.width != 64 or (v.isptr and v.init.obj != oid):
                    continue
                for p in srcs.values():
                    if E.meta[p.obj].kind in ('func', 'const') or not isbytes(E, S, p.obj):
                        continue
                    out.append(CopyCand(f"[{v}.initial,{v}) of {E.meta[oid].name} copied from {E.meta[p.obj].name}", oid, S_(v.init),
                                        lambda st, v=v: S_(v.get(st)), E.node_of(S, p.obj), p.off))
    for h in E.opts.get("cand_hooks", []):
        out.extend(h(E, S, f, fn, body, vars_, arrs))
    return out
