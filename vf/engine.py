"""Verification-condition generator over LLVM bitcode of the real sources.

Forward symbolic execution, one function activation at a time, for all inputs:
 * every input is a free SMT symbol, buffers have symbolic length and contents;
 * loops are cut at their header by inductive invariants (loops.py), or unrolled
   completely when every path through them provably terminates;
 * callees with a contract are replaced by the contract (requires asserted,
   frame havocked, ensures assumed); the others are entered.
Each assertion, memory access, contract precondition and loop invariant becomes
an obligation: path condition implies condition, for the SMT back ends.
"""
import random
import time
import subprocess
import z3
from . import llvm as LL
from .values import *
from .lia import Translator, Model, Guess


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """the current path is finished (assume false, exit, closed by invariant)"""


class Throw(Exception):
    def __init__(self, ptr, ti):
        self.ptr, self.ti = ptr, ti


class OState:
    __slots__ = ("base", "cells", "alive")

    def __init__(self, base, cells=None, alive=True):
        self.base = base
        self.cells = cells if cells is not None else {}
        self.alive = alive


class ObjMeta:
    __slots__ = ("id", "name", "size", "kind", "addr", "const", "func", "site")

    def __repr__(self):
        return f"<obj {self.id} {self.name} {self.kind} size={self.size}>"


class Frame:
    __slots__ = ("fn", "bi", "ip", "regs", "prev", "uid", "call", "allocas", "loopcnt", "loopsnap", "catch")

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.bi, f.ip, f.prev, f.uid, f.call = self.fn, self.bi, self.ip, self.prev, self.uid, self.call
        f.regs = self.regs[:]
        f.allocas = self.allocas[:]
        f.loopcnt = dict(self.loopcnt) if self.loopcnt is not None else None
        f.loopsnap = dict(self.loopsnap) if self.loopsnap is not None else None
        f.catch = self.catch
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "facts", "reads", "inputs", "model", "decisions", "pending", "exc",
                 "caught", "ghost", "trace", "covers", "unroll", "inst", "nfork")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.facts = {}
        self.reads = {}
        self.inputs = []
        self.model = None
        self.decisions = []
        self.pending = None
        self.exc = None
        self.caught = []
        self.ghost = {}
        self.trace = []
        self.unroll = 0
        self.inst = frozenset()
        self.nfork = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc[:]
        s.facts = dict(self.facts)
        s.reads = dict(self.reads)
        s.inputs = self.inputs[:]
        s.model = self.model
        s.decisions = []
        s.pending = self.pending
        s.exc = self.exc
        s.caught = self.caught[:]
        s.ghost = dict(self.ghost)
        s.trace = self.trace[:]
        s.unroll = self.unroll
        s.inst = self.inst
        s.nfork = self.nfork
        return s


class Solver:
    """linear integer view first, bit-vector back ends for what is left"""

    def __init__(self):
        self.s = z3.Solver()
        self.stack = []
        self.hard = []
        self.lvl = []
        self.have = set()
        self.wtries = {}
        self.tr = Translator()
        self.queries = 0
        self.time = 0.0
        self.byback = {}
        self.bvq = 0
        self.last_back = 'z3-int'

    def sync(self, pc):
        """bring the incremental solver to exactly this path condition.  Each
        level also settles the wrap-around quotients of newly seen sums that the
        path condition already determines (no overflow), which keeps later
        queries linear in practice."""
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        k = len(st) - n
        if k > 0:
            self.s.pop(k)
            del st[n:]
            del self.hard[n:]
            for ids in self.lvl[n:]:
                self.have.difference_update(ids)
            del self.lvl[n:]
        wraps = []
        for c in pc[n:]:
            f, side, h, ws = self.tr.constraint(c)
            self.s.push()
            ids = []
            for i, o in side:
                if i not in self.have:
                    self.have.add(i)
                    ids.append(i)
                    self.s.add(*o)
            self.s.add(f)
            st.append(c)
            self.hard.append(h)
            self.lvl.append(ids)
            for w in ws:
                if ('w', w.get_id()) not in self.have:
                    wraps.append(w)
        if wraps:
            t0 = time.time()
            self.settle(wraps)
            self.tsettle = getattr(self, "tsettle", 0) + time.time() - t0

    def settle(self, wraps):
        self.s.set("timeout", 400)
        if self.s.check() != z3.sat:
            return
        m = self.s.model()
        todo = []
        for w in wraps:
            k = ('w', w.get_id())
            if k in self.have or self.wtries.get(w.get_id(), 0) > 6 or any(w.get_id() == x[0].get_id() for x in todo):
                continue
            todo.append((w, k, m.eval(w, model_completion=True)))
        if len(todo) > 1:
            self.s.push()
            self.s.add(z3.Or(*[w != v for w, k, v in todo]))
            r = self.s.check()
            self.s.pop()
            if r == z3.unsat:
                for w, k, v in todo:
                    self.s.add(w == v)
                    self.have.add(k)
                    self.lvl[-1].append(k)
                return
        for w, k, v in todo:
            tries = self.wtries.get(w.get_id(), 0)
            self.s.push()
            self.s.add(w != v)
            r = self.s.check()
            if r == z3.sat:
                m2 = self.s.model()
            self.s.pop()
            if r == z3.unsat:
                self.s.add(w == v)
                self.have.add(k)
                self.lvl[-1].append(k)
            else:
                self.wtries[w.get_id()] = tries + 1

    def check(self, pc, extra=None, timeout=4000):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        t0 = time.time()
        try:
            return self._check(pc, extra, timeout)
        finally:
            self.time += time.time() - t0

    def _check(self, pc, extra, timeout):
        self.queries += 1
        self.sync(pc)
        self.s.set("timeout", timeout)
        hard = any(self.hard)
        if extra is not None:
            f, side, h, _ = self.tr.constraint(extra)
            hard = hard or h
            self.s.push()
            for i, o in side:
                if i not in self.have:
                    self.s.add(*o)
            self.s.add(f)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        if extra is not None:
            self.s.pop()
        self.last_back = 'z3-int'
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            m = Model(m, True)
            if not hard:
                return 'sat', m
            if all(m.val(c) for c in pc) and (extra is None or m.val(extra)):
                return 'sat', m
        if r == z3.unknown:
            # the same integer problem, not incrementally and with the other simplex
            s = z3.SimpleSolver()
            s.set("timeout", 2 * timeout)
            s.set("arith.solver", 6)
            s.set("relevancy", 2)
            seen = set()
            for c in list(pc) + ([extra] if extra is not None else []):
                f, side, h, _ = self.tr.constraint(c)
                for i, o in side:
                    if i not in seen:
                        seen.add(i)
                        s.add(*o)
                s.add(f)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                m = Model(s.model(), True)
                if not hard or (all(m.val(c) for c in pc) and (extra is None or m.val(extra))):
                    return 'sat', m
        self.bvq += 1
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*pc)
        if extra is not None:
            s.add(extra)
        r = s.check()
        self.last_back = 'z3-bv'
        return str(r), (Model(s.model(), False) if r == z3.sat else None)

    def with_names(self, pc, neg, model):
        """decide again with the definitions of named terms; guessing an input settles most failures"""
        cs = list(pc) + [neg]
        defs, leaves = NAMES.used(cs)
        if not defs:
            return 'sat', model, self.last_back
        t0 = time.time()
        try:
            for k in range(5):
                m = Model(Guess(k, model, pc), False)
                if all(m.val(c) for c in cs):
                    return 'sat', m, 'z3-bv'
            for depth in (1, 2, 4, 8):
                d, _ = NAMES.used(cs, depth)
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*cs)
                s.add(*d)
                if s.check() == z3.unsat:
                    return 'unsat', None, 'z3-bv'
                if len(d) == len(defs):
                    break
            s = z3.Solver()
            s.set("timeout", 60000)
            s.add(*cs)
            s.add(*defs)
            r = s.check()
            return str(r), (Model(s.model(), False) if r == z3.sat else None), 'z3-bv'
        finally:
            self.time += time.time() - t0

    def prove_hard(self, pc, neg, timeout=60000):
        """fallback back ends for an obligation left open"""
        t0 = time.time()
        self.queries += 1
        try:
            for tac in ("z3-bv", "z3-qfufbv"):
                s = z3.Solver() if tac == "z3-bv" else z3.Tactic("qfufbv").solver()
                s.set("timeout", timeout // 2)
                s.add(*pc)
                s.add(neg)
                try:
                    r = s.check()
                    if r == z3.unsat:
                        return 'unsat', None, tac
                    if r == z3.sat:
                        return 'sat', Model(s.model(), False), tac
                except z3.Z3Exception:
                    pass
            s = z3.Solver()
            s.add(*pc)
            s.add(neg)
            smt = "(set-logic ALL)\n" + s.sexpr() + "(check-sat)\n"
            try:
                p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--lang=smt2", "-"], input=smt, text=True,
                                   capture_output=True, timeout=timeout / 1000 + 10)
                out = p.stdout.strip().split("\n")[-1]
            except Exception:
                out = "unknown"
            if out == "unsat":
                return 'unsat', None, 'cvc5'
            return 'unknown', None, 'none'
        finally:
            self.time += time.time() - t0


class Obl:
    __slots__ = ("key", "kind", "n", "trivial", "z3", "hard", "failed", "unknown", "where")

    def __init__(self, key, kind, where):
        self.key, self.kind, self.where = key, kind, where
        self.n = self.trivial = self.z3 = self.hard = self.failed = self.unknown = 0


class Violation:
    pass


DEMANGLE = {}


def demangle_all(names):
    names = [n for n in names if n not in DEMANGLE]
    if not names:
        return
    p = subprocess.run(["llvm-cxxfilt-18" if False else "c++filt"], input="\n".join(names), text=True, capture_output=True)
    for n, d in zip(names, p.stdout.split("\n")):
        DEMANGLE[n] = d


class Engine:
    STEP_LIMIT = 40_000_000

    def __init__(self, module, opts=None):
        self.m = module
        self.opts = opts or {}
        NAMES.limit = self.opts.get("names", 0)
        self.solver = Solver()
        self.meta = {}
        self.objctr = 0
        self.gobj = {}
        self.fobj = {}
        self.obls = {}
        self.violations = []
        self.checks = True
        self.steps = 0
        self.paths = 0
        self.covers = {}
        self.externals = set()
        self.contracts_used = set()
        self.entered = set()
        self.repl = {}
        self.repl_names = {}
        self.loops_cut = {}
        self.loops_unrolled = {}
        self.loadlog = None
        self.active = []
        self.deadline = None
        self.bounded = 0
        self.bounded_hit = 0
        self.ctypeids = {}
        self.cconst = {}
        self.max_viol = 4
        self.cur_snap = None
        self.worklist = None
        self.cov_unknown = 0
        self.known_labels = set()
        demangle_all(list(module.funcs))
        from . import models
        self.models = models.build(self)
        self._model_cache = {}
        self.ops = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("op_")}
        self.find_replacements()

    # ------------------------------------------------------------ constants
    def const(self, v):
        r = self.cconst.get(v)
        if r is None:
            r = self._const(v)
            self.cconst[v] = r
        return r

    def _const(self, v):
        k = LL.GetValueKind(v)
        m = self.m
        if k == LL.VK_CINT:
            w = m.tyof(v).width
            if w > 64:
                s = LL.C.cast(LL.PrintValue(v), LL.C.c_char_p).value.decode()
                return int(s.split()[1]) & mask(w)
            c = LL.ConstIntZExt(v)
            if w == 1:
                return bool(c)
            return c
        if k == LL.VK_NULL:
            return NULL
        if k == LL.VK_FUNC:
            return Ptr(self.func_obj(m.func_by_ref[v]), 0)
        if k == LL.VK_GVAR:
            return Ptr(self.global_obj(v), 0)
        if k == LL.VK_ALIAS:
            return self.const(m.aliases[v])
        if k in (LL.VK_UNDEF, LL.VK_POISON):
            return UNDEF
        if k == LL.VK_AGGZERO:
            return self.zero_of(m.tyof(v))
        if k in (LL.VK_CSTRUCT, LL.VK_CARRAY):
            t = m.tyof(v)
            n = len(t.elems) if t.kind == 'struct' else t.count
            return Agg([self.const(LL.GetAggElem(v, i)) for i in range(n)])
        if k in (LL.VK_DATAARRAY, LL.VK_DATAVEC):
            t = m.tyof(v)
            return Agg([self.const(LL.GetAggElem(v, i)) for i in range(t.count)])
        if k == LL.VK_CFP:
            s = LL.C.cast(LL.PrintValue(v), LL.C.c_char_p).value.decode()
            return FP(s)
        if k == LL.VK_CE:
            op = LL.OPC.get(LL.ConstOpcode(v))
            if op == 'gep':
                base = self.const(LL.GetOperand(v, 0))
                t = m.ty(LL.GEPSourceElem(v))
                off = 0
                for i in range(1, LL.GetNumOperands(v)):
                    iv = LL.GetOperand(v, i)
                    c = LL.ConstIntZExt(iv)
                    w = m.tyof(iv).width
                    if w <= 64 and c >> (w - 1):
                        c -= 1 << w
                    if i > 1:
                        if t.kind == 'struct':
                            off += t.offs[c]
                            t = t.elems[c]
                            continue
                        t = t.elem
                    off += c * t.size
                return Ptr(base.obj, (base.off + off) & M64)
            if op in ('bitcast', 'addrspacecast'):
                return self.const(LL.GetOperand(v, 0))
            if op == 'ptrtoint':
                return self.ptr_to_int(self.const(LL.GetOperand(v, 0)))
            if op == 'inttoptr':
                c = self.const(LL.GetOperand(v, 0))
                return self.int_to_ptr(c)
            if op == 'icmp':
                return UNDEF
            if op == 'sub':
                a = self.const(LL.GetOperand(v, 0))
                b = self.const(LL.GetOperand(v, 1))
                return sub(a, b, m.tyof(v).width)
            raise Unsupported(f"constant expression {op}")
        raise Unsupported(f"constant kind {k}")

    def zero_of(self, t):
        if t.kind == 'int':
            return False if t.width == 1 else 0
        if t.kind == 'ptr':
            return NULL
        if t.kind == 'struct':
            return Agg([self.zero_of(e) for e in t.elems])
        if t.kind in ('array', 'vec'):
            if t.count > 4096:
                return BIGZERO
            return Agg([self.zero_of(t.elem) for _ in range(t.count)])
        if t.kind == 'fp':
            return FP("0.0")
        raise Unsupported(f"zero of {t}")

    def undef_of(self, t):
        if t.kind == 'int':
            if t.width == 1:
                return z3.Bool(f"undef!{fresh_id()}")
            return z3.BitVec(f"undef!{fresh_id()}", t.width)
        if t.kind == 'ptr':
            return Ptr(-1, 0)
        if t.kind == 'struct':
            return Agg([self.undef_of(e) for e in t.elems])
        if t.kind in ('array', 'vec'):
            return Agg([self.undef_of(t.elem) for _ in range(t.count)])
        if t.kind == 'fp':
            return FP(None)
        raise Unsupported(f"undef of {t}")

    # ------------------------------------------------------------ objects
    def new_obj(self, name, size, kind, const=False):
        self.objctr += 1
        o = ObjMeta()
        o.id = self.objctr
        o.name, o.size, o.kind, o.const = name, size, kind, const
        o.addr = None
        o.func = None
        o.site = None
        self.meta[o.id] = o
        return o

    def func_obj(self, fn):
        r = self.fobj.get(fn.name)
        if r is None:
            o = self.new_obj(fn.name, 1, 'func', True)
            o.func = fn
            r = self.fobj[fn.name] = o.id
        return r

    def global_obj(self, ref):
        r = self.gobj.get(ref)
        if r is None:
            t = self.m.ty(LL.GlobalValueType(ref))
            o = self.new_obj(self.m.name(ref), t.size, 'global', bool(LL.IsGlobalConstant(ref)))
            r = self.gobj[ref] = o.id
            o.func = ref
        return r

    def ginit_state(self, oid):
        """initial OState of a global object (program start for constants, zero/initializer otherwise)"""
        o = self.meta[oid]
        ref = o.func
        init = LL.GetInitializer(ref)
        if not init:
            if o.name.startswith("_ZTV") or o.name.startswith("_ZTI") or o.name.startswith("_ZTS"):
                return OState(NSym("ext_" + o.name))
            return OState(NSym("ext_" + o.name))
        t = self.m.ty(LL.GlobalValueType(ref))
        vk = LL.GetValueKind(init)
        if vk == LL.VK_DATAARRAY and t.elem.size == 1:
            n = LL.C.c_size_t()
            p = LL.GetAsString(init, LL.C.byref(n))
            data = LL.C.string_at(p, n.value)
            return OState(NConst(data))
        if vk == LL.VK_AGGZERO or vk == LL.VK_NULL:
            return OState(NZero())
        v = self.const(init)
        cells = {}
        self._flat(v, t, 0, cells)
        return OState(NZero(), cells)

    def _flat(self, v, t, off, cells):
        if v is BIGZERO:
            return
        if v is UNDEF:
            return
        if t.kind == 'struct':
            for e, o, x in zip(t.elems, t.offs, v.v):
                self._flat(x, e, off + o, cells)
        elif t.kind in ('array', 'vec'):
            for i, x in enumerate(v.v):
                self._flat(x, t.elem, off + i * t.elem.size, cells)
        else:
            if type(v) is bool:
                v = int(v)
            cells[off] = (t.store, v)

    def addr(self, oid):
        o = self.meta[oid]
        if o.addr is None:
            # symbolic base address; alignment 16 and no wrap-around are axioms
            o.addr = z3.BitVec(f"addr!{oid}", 64)
        return o.addr

    def ptr_to_int(self, p):
        if isinstance(p, Ptr):
            if p.obj == 0:
                return p.off
            if p.obj == -1:
                return z3.BitVec(f"wild!{fresh_id()}", 64)
            self.objs_by_addr = getattr(self, "objs_by_addr", {})
            a = self.addr(p.obj)
            self.objs_by_addr[a.get_id()] = p.obj
            return add(a, p.off)
        return p

    def int_to_ptr(self, v):
        if isinstance(v, Ptr):
            return v
        if type(v) is int:
            return Ptr(0, v)
        # addr!k + off ?
        def find(e):
            if z3.is_const(e) and e.decl().name().startswith("addr!"):
                return int(e.decl().name()[5:]), 0
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BADD:
                ch = e.children()
                for i, c in enumerate(ch):
                    r = find(c)
                    if r:
                        rest = ch[:i] + ch[i + 1:]
                        off = r[1]
                        for x in rest:
                            off = add(off, x)
                        return r[0], off
            return None
        r = find(v)
        if r:
            return Ptr(r[0], r[1])
        return Ptr(-1, 0)

    def ostate(self, st, oid):
        os = st.mem.get(oid)
        if os is None:
            o = self.meta.get(oid)
            if o is None or o.kind != 'global':
                return None
            os = self.ginit_state(oid)
            st.mem[oid] = os
        return os

    def alloc(self, st, name, size, kind, base=None):
        o = self.new_obj(name, size, kind)
        st.mem[o.id] = OState(base if base is not None else NSym("u_" + name))
        f = st.frames[-1] if st.frames else None
        o.site = f.fn.name if f else None
        return Ptr(o.id, 0)

    # ------------------------------------------------------------ path conditions
    def assume(self, st, c):
        """add c to the path condition; PathEnd if it is trivially false"""
        if type(c) is not bool:
            c = sbool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        st.pc.append(c)
        if st.model is not None:
            if not st.model.val(c):
                st.model = None

    def feasible(self, st, c=None):
        """is pc (and c) satisfiable?  unknown counts as feasible"""
        if c is not None:
            if type(c) is bool:
                if not c:
                    return False
                c = None
        if st.model is not None:
            if c is None:
                return True
            if st.model.val(c):
                return True
        r, m = self.solver.check(st.pc, c)
        if r == 'sat':
            if c is None:
                st.model = m
            else:
                self._last_model = m
            return True
        if r == 'unsat':
            return False
        self.cov_unknown += 1
        return True

    def implied(self, st, c, timeout=4000):
        """does pc imply c? (unknown -> False)"""
        c = sbool(c)
        if type(c) is bool:
            return c
        if st.model is not None and (not st.model.val(c)):
            return False
        r, _ = self.solver.check(st.pc, z3.Not(c), timeout)
        return r == 'unsat'

    def branch(self, st, c):
        """Decide a condition inside an instruction handler; the other side is
        queued as a snapshot that re-executes the instruction."""
        c = sbool(c)
        if type(c) is bool:
            return c
        k = self.dec_idx
        self.dec_idx += 1
        if k < len(self.dec):
            d = self.dec[k]
            if not d:
                st.nfork += 1
            self.assume(st, c if d else z3.Not(c))
            if st.model is None and not self.feasible(st):
                raise PathEnd()
            return d
        t = self.feasible(st, c)
        f = self.feasible(st, z3.Not(c))
        if t and f:
            s2 = self.cur_snap.clone()
            s2.decisions = self.dec + [False]
            self.worklist.append(s2)
            self.dec = self.dec + [True]
            st.nfork += 1
            self.assume(st, c)
            return True
        self.dec = self.dec + [t]
        if t:
            self.assume(st, c)
            return True
        if f:
            self.assume(st, z3.Not(c))
            return False
        raise PathEnd()

    def add_fact(self, st, node, lo, hi, pred):
        """for all j with lo <= j < hi: pred(state, j, node[j]).  Instantiated on
        every index at which the node is (or was) read."""
        fid = fresh_id()
        st.facts[node.id] = st.facts.get(node.id, ()) + ((fid, lo, hi, pred),)
        for idx in list(st.reads.get(node.id, {}).values()):
            self.inst_fact(st, node, idx, None, (fid, lo, hi, pred))

    def inst_fact(self, st, node, idx, val, fact):
        fid, lo, hi, pred = fact
        key = (fid, idx if type(idx) is int else idx.get_id())
        if key in st.inst:
            return
        st.inst = st.inst | {key}
        g = b_and(ule(lo, idx), ult(idx, hi))
        if g is False:
            return
        if val is None:
            val = self.read_node(st, node, idx)
        c = b_imp(g, pred(st, idx, val))
        c = sbool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        st.pc.append(c)
        if st.model is not None and not st.model.val(c):
            st.model = None

    def loc(self, st):
        for f in reversed(st.frames):
            b = f.fn.blocks[f.bi]
            I = b.insts[f.ip] if f.ip < len(b.insts) else None
            if I is not None:
                return f.fn.name, I.file, I.line
        return "?", None, 0

    def locstr(self, st):
        out = []
        for f in reversed(st.frames[-6:]):
            b = f.fn.blocks[f.bi]
            I = b.insts[min(f.ip, len(b.insts) - 1)]
            d = DEMANGLE.get(f.fn.name, f.fn.name).split("(")[0]
            out.append(f"{d} at {I.file or '?'}:{I.line}")
        return " <- ".join(out)

    def obligation(self, st, c, kind, label):
        """c must hold here.  Records the result, then assumes c."""
        c = sbool(c)
        if not self.checks:
            self.assume(st, c)
            if st.model is None and not self.feasible(st):
                raise PathEnd()
            return
        fn, file, line = self.loc(st)
        key = f"{kind}:{label}" if kind in ("assert", "requires") else f"{kind}:{DEMANGLE.get(fn, fn)}"
        ob = self.obls.get(key)
        if ob is None:
            ob = self.obls[key] = Obl(key, kind, f"{file}:{line}")
        ob.n += 1
        if c is True:
            ob.trivial += 1
            return
        if c is False:
            neg = None
            if st.model is not None:
                r, m = 'sat', st.model
            else:
                r, m = self.solver.check(st.pc, None, 10000)
        else:
            neg = z3.Not(c)
            r, m = self.solver.check(st.pc, neg, 8000)
        back = self.solver.last_back
        if r == 'unknown':
            r, m, back = self.solver.prove_hard(st.pc, neg if neg is not None else z3.BoolVal(True))
        if r == 'sat' and NAMES.limit:
            r, m, back = self.solver.with_names(st.pc, neg if neg is not None else z3.BoolVal(True), m)
        self.solver.byback[back] = self.solver.byback.get(back, 0) + 1
        if r == 'unsat':
            if back == 'z3-int':
                ob.z3 += 1
            else:
                ob.hard += 1
        elif r == 'sat':
            ob.failed += 1
            self.report(st, key, kind, label, neg, m)
        else:
            ob.unknown += 1
            self.unknowns = getattr(self, "unknowns", [])
            self.unknowns.append((key, self.locstr(st)))
        if c is False:
            raise PathEnd()
        if r == 'unsat':
            # implied: no need to grow the path condition
            return
        self.assume(st, c)
        if not self.feasible(st):
            raise PathEnd()

    def fail(self, st, kind, label):
        self.obligation(st, False, kind, label)
        raise PathEnd()

    def report(self, st, key, kind, label, neg, model):
        v = Violation()
        v.key, v.kind, v.label = key, kind, label
        v.loc = self.locstr(st)
        v.pc = st.pc + ([neg] if neg is not None else [])
        v.model = self.exact_model(st, v.pc, self.small_model(st, v.pc, model))
        v.inputs = self.input_values(st, v.model)
        v.trace = list(st.trace)
        v.exact = True
        if any(w.key == key for w in self.violations) and key in self.known_labels:
            return
        self.violations.append(v)
        if len([w for w in self.violations if w.key not in self.known_labels]) >= self.max_viol:
            raise StopIteration

    def small_model(self, st, pc, model):
        """prefer small buffers and values so that the model can be replayed"""
        if NAMES.limit:
            return model
        sizes = [i[2] for i in st.inputs if i[0] == 'u' and i[3] and not isint(i[2])]
        for lim in (8, 40, 300, 5000):
            if not sizes:
                break
            r, m = self.solver.check(pc + [z3.ULE(x, lim) for x in sizes], None, 3000)
            if r == 'sat':
                return m
        return model

    def exact_model(self, st, pc, m):
        """the same violation with every quantified fact instantiated on all bytes of small inputs"""
        if NAMES.limit or not st.facts:
            return m
        try:
            t = st.clone()
            t.pc = list(pc)
            t.model = None
            pins = []
            self.noquick = True
            todo = []
            for i in st.inputs:
                if i[0] == 'b':
                    n = i[3] if isint(i[3]) else m.val(i[3])
                    if n > 80:
                        continue
                    if not isint(i[3]):
                        pins.append(i[3] == n)
                    todo += [(i[2], k) for k in range(n)]
            if len(todo) > 200:
                return m
            t.pc += pins
            for node, k in todo:
                self.read_node(t, node, k)
            r, m2 = self.solver.check(t.pc, None, 10000)
            return m2 if r == 'sat' else m
        except (PathEnd, Unsupported):
            return m
        finally:
            self.noquick = False

    def input_values(self, st, m):
        out = []

        def ev(x):
            if type(x) is int:
                return x
            if type(x) is bool:
                return int(x)
            return int(m.val(x))
        for i in st.inputs:
            if i[0] == 'u':
                out.append(("u", i[1], ev(i[2])))
            else:
                n = ev(i[3])
                if n > 1 << 20:
                    return None
                node = i[2]
                out.append(("b", i[1], [ev(node.f(z3.BitVecVal(k, 64))) for k in range(n)]))
        return out

    # ------------------------------------------------------------ memory
    def read_node(self, st, node, idx):
        """byte of node at idx (int or BV64)"""
        t = type(node)
        if t is NZero:
            return 0
        key = idx if type(idx) is int else idx.get_id()
        rd = st.reads.get(node.id)
        first = rd is None or key not in rd
        if first:
            nr = dict(rd) if rd else {}
            nr[key] = idx
            st.reads[node.id] = nr
        if t is NSym:
            v = node.f(bv(idx, 64))
        elif t is NConst:
            d = node.data
            if type(idx) is int:
                v = d[idx] if idx < len(d) else 0
            else:
                if len(d) > 512:
                    raise Unsupported("symbolic index into large constant")
                v = z3.BitVecVal(0, 8)
                for k in range(len(d) - 1, -1, -1):
                    v = z3.If(idx == k, z3.BitVecVal(d[k], 8), v)
        elif t is NStore:
            v = self._read_store(st, node, idx)
        elif t is NCopy:
            d = sub(idx, node.off)
            c = self.quick(st, ult(d, node.len))
            if c is True:
                v = self.read_node(st, node.src, add(node.soff, d))
            elif c is False:
                v = self.read_node(st, node.prev, idx)
            else:
                a = self.read_node(st, node.src, add(node.soff, d))
                b = self.read_node(st, node.prev, idx)
                v = ite(c, a, b, 8)
        elif t is NSet:
            c = self.quick(st, ult(sub(idx, node.off), node.len))
            if c is True:
                v = node.byte
            elif c is False:
                v = self.read_node(st, node.prev, idx)
            else:
                v = ite(c, node.byte, self.read_node(st, node.prev, idx), 8)
        else:
            v = node.read(self, st, idx)
        fs = st.facts.get(node.id)
        if fs:
            for f in fs:
                self.inst_fact(st, node, idx, v, f)
        return v

    def quick(self, st, c):
        """cheaply settle a range condition from the path condition"""
        if type(c) is bool or self.noquick:
            return c
        if st.model is None:
            if not self.feasible(st):
                raise PathEnd()
        if st.model is not None:
            if st.model.val(c):
                r, _ = self.solver.check(st.pc, z3.Not(c), 500)
                if r == 'unsat':
                    return True
            else:
                r, _ = self.solver.check(st.pc, c, 500)
                if r == 'unsat':
                    return False
        return c

    def _read_store(self, st, node, idx):
        # iterate down long store chains without recursion
        conds = []
        n = node
        while type(n) is NStore and (n is node or n.id not in st.facts):
            if type(n.off) is int and type(idx) is int:
                if n.off <= idx < n.off + n.size:
                    v = bytes_of(n.val, n.size)[idx - n.off]
                    break
                n = n.prev
                continue
            d = sub(idx, n.off)
            if type(d) is int:
                if d < n.size:
                    v = bytes_of(n.val, n.size)[d]
                    break
                n = n.prev
                continue
            c = self.quick(st, ult(d, n.size))
            if c is False:
                n = n.prev
                continue
            bs = bytes_of(n.val, n.size)
            val = bs[-1]
            for k in range(n.size - 2, -1, -1):
                val = ite(eq(d, k), bs[k], val, 8)
            if c is True:
                v = val
                break
            conds.append((c, val))
            n = n.prev
        else:
            v = self.read_node(st, n, idx)
        for c, val in reversed(conds):
            v = ite(c, val, v, 8)
        return v

    def cell_bytes(self, val, size):
        if isinstance(val, Ptr):
            val = self.ptr_to_int(val)
        if isinstance(val, FP):
            return [z3.BitVec(f"fpb!{fresh_id()}", 8) for _ in range(size)]
        return bytes_of(val, size)

    def flushed(self, os):
        """base node with all cells folded in"""
        n = os.base
        for off in sorted(os.cells):
            size, val = os.cells[off]
            if isinstance(val, Ptr):
                val = self.ptr_to_int(val)
            if isinstance(val, FP):
                val = z3.BitVec(f"fpb!{fresh_id()}", 8 * size)
            n = NStore(off, size, val, n)
        return n

    def read_bytes(self, st, os, off, n):
        if type(off) is int:
            if not os.cells:
                return [self.read_node(st, os.base, off + i) for i in range(n)]
            out = [None] * n
            cells = os.cells
            lo = off - 15
            if len(cells) > n + 32:
                rng = range(max(0, lo), off + n)
                it = [(k, cells[k]) for k in rng if k in cells]
            else:
                it = [(k, c) for k, c in cells.items() if k < off + n and k + c[0] > off]
            for k, (sz, val) in it:
                if k + sz <= off or k >= off + n:
                    continue
                bs = self.cell_bytes(val, sz)
                for i in range(sz):
                    p = k + i - off
                    if 0 <= p < n:
                        out[p] = bs[i]
            for i in range(n):
                if out[i] is None:
                    out[i] = self.read_node(st, os.base, off + i)
            return out
        node = self.flushed(os) if os.cells else os.base
        if os.cells:
            # keep the folded form so that facts and reads attach to one node
            if not any(isinstance(c[1], (Ptr, FP)) for c in os.cells.values()):
                os.base = node
                os.cells = {}
        return [self.read_node(st, node, add(off, i)) for i in range(n)]

    def check_access(self, st, p, size, what, write=False):
        if not isinstance(p, Ptr):
            raise Unsupported(f"{what} through non-pointer {p}")
        if p.obj == 0:
            self.fail(st, "safety", f"{what}: null pointer")
        if p.obj == -1:
            self.fail(st, "safety", f"{what}: invalid pointer")
        os = self.ostate(st, p.obj)
        o = self.meta[p.obj]
        if os is None or not os.alive:
            if o.kind == 'func':
                self.fail(st, "safety", f"{what}: function used as data")
            self.fail(st, "safety", f"{what}: object {o.name} used after its lifetime")
        if write and o.const:
            self.fail(st, "safety", f"{what}: write to constant {o.name}")
        osz = o.size
        off = p.off
        if type(size) is int and size == 0:
            return os
        if type(off) is int and type(osz) is int and type(size) is int:
            ok = off + size <= osz and off >= 0
        else:
            ok = b_and(ule(size, osz), ule(off, sub(osz, size)))
        if ok is not True:
            self.obligation(st, ok, "safety", f"{what}: out of bounds of {o.name}")
        elif self.checks:
            self.obligation(st, True, "safety", what)
        return os

    def load(self, st, p, t):
        if t.kind == 'struct':
            return Agg([self.load(st, Ptr(p.obj, add(p.off, o)), e) for e, o in zip(t.elems, t.offs)])
        if t.kind in ('array', 'vec'):
            return Agg([self.load(st, Ptr(p.obj, add(p.off, i * t.elem.size)), t.elem) for i in range(t.count)])
        size = t.store
        os = self.check_access(st, p, size, "load")
        off = p.off
        if type(off) is int:
            c = os.cells.get(off)
            if c is not None and c[0] == size:
                v = c[1]
                if self.loadlog is not None and not isinstance(v, FP):
                    self.loadlog[(p.obj, off, size)] = True
                return self.conv(v, t)
            if t.kind == 'fp':
                return FP(None)
        elif t.kind == 'ptr' and os.cells:
            # symbolic index into pointer cells: split on the cell
            for k in sorted(os.cells):
                c = os.cells[k]
                if c[0] == 8 and isinstance(c[1], Ptr):
                    if self.branch(st, eq(off, k)):
                        return c[1]
        if t.kind == 'fp':
            return FP(None)
        if self.loadlog is not None and type(off) is int and not os.cells.get(off):
            self.loadlog[(p.obj, off, size)] = True
        bs = self.read_bytes(st, os, off, size)
        v = from_bytes(bs)
        return self.conv(v, t)

    def conv(self, v, t):
        if v is DEAD:
            raise Unsupported("a pointer or scalar set in an earlier iteration of a loop is read")
        if t.kind == 'ptr':
            if isinstance(v, Ptr):
                return v
            return self.int_to_ptr(v)
        if t.kind == 'fp':
            return v if isinstance(v, FP) else FP(None)
        if isinstance(v, Ptr):
            return v      # integer typed read of a pointer: keep provenance
        if isinstance(v, FP):
            return z3.BitVec(f"fpi!{fresh_id()}", t.width)
        w = t.width
        if w == 1:
            if type(v) is int:
                return bool(v & 1)
            return sbool(z3.Extract(0, 0, v) == 1)
        if w != t.store * 8:
            return trunc(v, t.store * 8, w)
        return v

    def store(self, st, p, v, t):
        if t.kind == 'struct':
            for e, o, x in zip(t.elems, t.offs, v.v):
                self.store(st, Ptr(p.obj, add(p.off, o)), x, e)
            return
        if t.kind in ('array', 'vec'):
            for i, x in enumerate(v.v):
                self.store(st, Ptr(p.obj, add(p.off, i * t.elem.size)), x, t.elem)
            return
        if v is UNDEF:
            v = self.undef_of(t)
        size = t.store
        os = self.check_access(st, p, size, "store", True)
        if t.kind == 'int':
            if t.width == 1:
                v = zext(v, 1, 8)
            elif t.width != size * 8:
                v = zext(v, t.width, size * 8)
        self.put(st, p.obj, os, p.off, size, v)

    def put(self, st, oid, os, off, size, v):
        if type(off) is int:
            cells = dict(os.cells)
            if off in cells and cells[off][0] == size:
                cells[off] = (size, v)
            else:
                self.clear_range(st, os, cells, off, size)
                cells[off] = (size, v)
            st.mem[oid] = OState(os.base, cells, os.alive)
        else:
            if isinstance(v, Ptr):
                v = self.ptr_to_int(v)
            if isinstance(v, FP):
                v = z3.BitVec(f"fpb!{fresh_id()}", 8 * size)
            node = self.flushed(os) if os.cells else os.base
            keep = {}
            for k, (sz, val) in os.cells.items():
                if isinstance(val, Ptr):
                    disj = b_or(ule(add(off, size), k), ule(k + sz, off))
                    if self.implied(st, disj):
                        keep[k] = (sz, val)
            st.mem[oid] = OState(NStore(off, size, v, node), keep, os.alive)

    def clear_range(self, st, os, cells, off, size):
        """remove concrete range from the cells, splitting partially covered ones"""
        end = off + size
        for k in [k for k in cells if k < end and k + cells[k][0] > off]:
            sz, val = cells.pop(k)
            if k >= off and k + sz <= end:
                continue
            bs = self.cell_bytes(val, sz)
            for i in range(sz):
                if not (off <= k + i < end):
                    cells[k + i] = (1, bs[i])

    def memcpy(self, st, d, s, n, what="memcpy"):
        if type(n) is int and n == 0:
            return
        if type(n) is not int and not (d.obj > 0 and s.obj > 0):
            if self.branch(st, eq(n, 0)):
                return
        if self.copylog is not None and d.obj > 0 and s.obj > 0:
            self.copylog.append((d, s))
        so = self.check_access(st, s, n, what + " source")
        do = self.check_access(st, d, n, what + " destination", True)
        if type(n) is int and type(d.off) is int and type(s.off) is int and n <= 4096:
            new = {}
            cov = set()
            for k, (sz, val) in so.cells.items():
                if k >= s.off and k + sz <= s.off + n:
                    new[k - s.off] = (sz, val)
                    cov.update(range(k - s.off, k - s.off + sz))
                elif k < s.off + n and k + sz > s.off:
                    bs = self.cell_bytes(val, sz)
                    for i in range(sz):
                        q = k + i - s.off
                        if 0 <= q < n:
                            new[q] = (1, bs[i])
                            cov.add(q)
            cells = dict(do.cells)
            self.clear_range(st, do, cells, d.off, n)
            if len(cov) < n:
                base = NCopy(d.off, n, so.base, s.off, do.base)
            else:
                base = do.base
            for k, c in new.items():
                cells[d.off + k] = c
            st.mem[d.obj] = OState(base, cells, do.alive)
            return
        if any(isinstance(c[1], Ptr) for c in do.cells.values()) or any(isinstance(c[1], Ptr) for c in so.cells.values()):
            n2 = self.concretize(st, n)
            if n2 is not None and type(d.off) is int and type(s.off) is int:
                return self.memcpy(st, d, s, n2, what)
        sn = self.flushed(so) if so.cells else so.base
        if so.cells and not any(isinstance(c[1], (Ptr, FP)) for c in so.cells.values()):
            so.base, so.cells = sn, {}
        do = self.ostate(st, d.obj)
        dn = self.flushed(do) if do.cells else do.base
        keep = {}
        for k, (sz, val) in do.cells.items():
            if isinstance(val, Ptr):
                disj = b_or(ule(add(d.off, n), k), ule(k + sz, d.off))
                if self.implied(st, disj):
                    keep[k] = (sz, val)
        st.mem[d.obj] = OState(NCopy(d.off, n, sn, s.off, dn), keep, do.alive)

    def memset(self, st, d, b, n, what="memset"):
        if type(n) is int and n == 0:
            return
        if type(n) is not int:
            if self.branch(st, eq(n, 0)):
                return
        do = self.check_access(st, d, n, what, True)
        if type(n) is int and type(d.off) is int and n <= 4096:
            cells = dict(do.cells)
            self.clear_range(st, do, cells, d.off, n)
            if type(b) is int and b == 0 and n % 8 == 0 and d.off % 8 == 0 and n <= 512:
                for k in range(0, n, 8):
                    cells[d.off + k] = (8, 0)
                st.mem[d.obj] = OState(do.base, cells, do.alive)
            else:
                st.mem[d.obj] = OState(NSet(d.off, n, b, do.base), cells, do.alive)
            return
        dn = self.flushed(do) if do.cells else do.base
        keep = {}
        for k, (sz, val) in do.cells.items():
            if isinstance(val, Ptr):
                disj = b_or(ule(add(d.off, n), k), ule(k + sz, d.off))
                if self.implied(st, disj):
                    keep[k] = (sz, val)
        st.mem[d.obj] = OState(NSet(d.off, n, b, dn), keep, do.alive)

    def node_of(self, st, oid):
        """single node holding the whole current contents (no pointers)"""
        os = self.ostate(st, oid)
        if os.cells:
            n = self.flushed(os)
            if not any(isinstance(c[1], (Ptr, FP)) for c in os.cells.values()):
                os.base, os.cells = n, {}
            return n
        return os.base

    def concretize(self, st, v):
        """the only possible value of v on this path, or None"""
        if type(v) is int:
            return v
        if st.model is None and not self.feasible(st):
            raise PathEnd()
        if st.model is None:
            return None
        c = st.model.val(v)
        if self.implied(st, v == c):
            return c
        return None

    # ------------------------------------------------------------ replacement contracts
    def find_replacements(self):
        """Contracts that stand in for a callee: globals named vf_repl_* hold
        {target pattern, stub}.  Applied when the harness activates them."""
        self.noquick = False
        self.copylog = None
        self.bytesrc = {}
        self.repl_decl = []
        for name, ref in self.m.globals.items():
            if "vf_repl_" in name:
                v = self.const(LL.GetInitializer(ref))
                pat = self.cstr_const(v.v[0])
                grp = self.cstr_const(v.v[2])
                fn = self.meta[v.v[1].obj].func
                self.repl_decl.append((pat, fn.name, grp))

    def cstr_const(self, p):
        os = self.ginit_state(p.obj)
        d = os.base.data if isinstance(os.base, NConst) else b""
        return d[p.off:].split(b"\0")[0].decode()

    def activate(self, groups):
        """replace callees whose demangled name starts with the pattern"""
        self.repl = {}
        self.repl_unmatched = []
        for pat, stub, grp in self.repl_decl:
            if grp not in groups:
                continue
            hit = pat.startswith("?")       # need not exist
            pat = pat.lstrip("?")
            for n in self.m.funcs:
                d = DEMANGLE.get(n, n)
                if self.match(pat, d, n) and n != stub:
                    self.repl[n] = stub
                    hit = True
            if not hit:
                self.repl_unmatched.append(pat)

    @staticmethod
    def match(pat, dem, mangled):
        if pat == mangled:
            return True
        import fnmatch
        if "*" in pat:
            return fnmatch.fnmatchcase(dem, pat.replace("[", "[[]"))
        return dem == pat or dem.startswith(pat + "(") or dem.startswith(pat + "<") or dem.startswith(pat + "[")

    # ------------------------------------------------------------ execution
    def ev(self, regs, o, I=None):
        if type(o) is int:
            return regs[o]
        return o[1]

    def evt(self, regs, o, t):
        v = regs[o] if type(o) is int else o[1]
        if v is UNDEF:
            return self.undef_of(t)
        return v

    def push(self, st, fn, args, call=None):
        self.m.decode(fn, self.const)
        self.entered.add(fn.name)
        f = Frame()
        f.fn = fn
        f.bi = 0
        f.ip = 0
        f.prev = -1
        f.regs = [None] * fn.nslots
        for i in range(fn.nargs):
            f.regs[i] = args[i]
        f.uid = fresh_id()
        f.call = call
        f.allocas = []
        f.loopcnt = None
        f.loopsnap = None
        f.catch = None
        if len(st.frames) > 120:
            raise Unsupported("recursion too deep")
        st.frames.append(f)

    def explore(self, init, stop=None):
        """Run all paths from init.  With stop=(frame uid, header, blocks), paths
        that leave or re-enter that loop are collected as events."""
        saved = self.worklist, self.cur_snap, getattr(self, "dec", None), getattr(self, "dec_idx", None)
        wl = self.worklist = [init]
        events = []
        try:
            while wl:
                st = wl.pop()
                try:
                    ev = self.run(st, stop)
                    if ev is not None:
                        events.append(ev)
                except PathEnd:
                    pass
                self.worklist = wl
        finally:
            self.worklist, self.cur_snap, self.dec, self.dec_idx = saved
        return events

    def run(self, st, stop):
        if st.exc is not None and st.exc[0] == 'unwinding':
            r = self.unwind(st, st.exc[1], st.exc[2], stop)
            if r is not None:
                return r if r != 'dead' else None
        if st.pending is not None:
            src, dst = st.pending
            st.pending = None
            r = self.goto(st, dst, stop, src)
            if r is not None:
                return r if r != 'dead' else None
        while True:
            f = st.frames[-1]
            I = f.fn.blocks[f.bi].insts[f.ip]
            self.steps += 1
            if self.steps & 1023 == 0 and self.deadline and time.time() > self.deadline:
                raise TimeoutError("verification time limit")
            op = I.op
            if op in ('call', 'invoke', 'load', 'store', 'select', 'icmp', 'unreachable'):
                self.dec = st.decisions
                self.dec_idx = 0
                need = op in ('call', 'invoke') or self.dec
                if not need and op == 'load':
                    a = I.args[0]
                    p = f.regs[a] if type(a) is int else a[1]
                    need = isinstance(p, Ptr) and type(p.off) is not int
                if not need and op == 'select':
                    need = I.ty.kind == 'ptr'
                if need:
                    self.cur_snap = st.clone()
                st.decisions = []
            try:
                r = self.ops[op](st, f, I, stop)
            except KeyError as e:
                if op not in self.ops:
                    raise Unsupported(f"instruction {op}")
                raise
            except Throw as t:
                r = self.unwind(st, t.ptr, t.ti, stop)
            if r is not None:
                if r == 'dead':
                    return None
                return r

    def goto(self, st, dst, stop, src=None):
        """transfer to block dst of the top frame; None to continue, else event/'dead'"""
        f = st.frames[-1]
        fn = f.fn
        src = f.bi if src is None else src
        d = dst.idx
        loops = fn.loops if fn.loops is not None else LL.loops_of(fn)
        if stop is not None and f.uid == stop[0]:
            if d == stop[1]:
                self.enter_block(st, f, dst, src)
                return ('back', st)
            if d not in stop[2]:
                f.bi = src
                st.pending = (src, dst)
                return ('exit', st)
        if d in loops:
            back = src in loops[d]
            self.enter_block(st, f, dst, src)
            return self.at_header(st, f, d, back, stop)
        # leaving loops: forget their counters
        self.enter_block(st, f, dst, src)
        return None

    def in_contract(self, fn):
        for b in fn.blocks:
            for I in b.insts:
                if I.file:
                    return "contracts/" in I.file
        return False

    def enter_block(self, st, f, dst, src):
        if dst.phis:
            vals = []
            for ph in dst.phis:
                for b, o in ph.args:
                    if b == src:
                        v = f.regs[o] if type(o) is int else o[1]
                        if v is UNDEF:
                            v = self.undef_of(ph.ty)
                        vals.append(v)
                        break
                else:
                    raise Unsupported("phi without incoming edge")
            for ph, v in zip(dst.phis, vals):
                f.regs[ph.dst] = v
        f.prev = src
        f.bi = dst.idx
        f.ip = 0

    def at_header(self, st, f, h, back, stop):
        """loop header reached: remember the state so that the loop can be cut
        here if its exit turns out to depend on symbols"""
        if f.loopcnt is None:
            f.loopcnt = {}
            f.loopsnap = {}
        if not back:
            f.loopcnt[h] = [0, 0, st.nfork, 0]
        else:
            c = f.loopcnt.get(h, [0, 0, 0, 0])
            f.loopcnt[h] = [c[0] + 1, c[1], st.nfork, c[3] + 1 if st.nfork > c[2] else 0] + c[4:]
            if c[3] >= self.opts.get("max_forking", 3) and not self.bounded and (f.uid, h) not in self.active \
                    and not self.in_contract(f.fn):
                # every iteration splits the paths although the exit is decided
                from . import loops as LP
                self.worklist.extend(LP.cut(self, st.clone(), h))
                return 'dead'
            if c[0] > self.opts.get("max_concrete", 3000):
                raise Unsupported(f"loop in {f.fn.name} iterates too often with decided exits")
        f.loopsnap.pop(h, None)
        snap = st.clone()
        f.loopsnap[h] = (snap, [False])
        return None

    # --- terminators
    def op_br(self, st, f, I, stop):
        if not I.args:
            return self.goto(st, I.x[0], stop)
        c = self.ev(f.regs, I.args[0])
        if c is UNDEF:
            c = z3.Bool(f"undef!{fresh_id()}")
        c = sbool(c)
        T, F = I.x
        if type(c) is bool:
            return self.goto(st, T if c else F, stop)
        t = self.feasible(st, c)
        mt = getattr(self, "_last_model", None)
        self._last_model = None
        fl = self.feasible(st, z3.Not(c))
        mf = getattr(self, "_last_model", None)
        self._last_model = None
        if t and fl:
            r = self.maybe_cut(st, f, (T, F), stop)
            if r == 'dead':
                return r
            if r is T:
                self.assume(st, c)
                return self.goto(st, T, stop)
            if r is F:
                self.assume(st, z3.Not(c))
                return self.goto(st, F, stop)
            st.nfork += 1
            s2 = st.clone()
            m0 = st.model
            s2.pc.append(z3.Not(c))
            if m0 is not None and m0.val(z3.Not(c)):
                s2.model = m0
            else:
                s2.model = mf
            s2.pending = (f.bi, F)
            self.worklist.append(s2)
            st.pc.append(c)
            if m0 is not None and m0.val(c):
                st.model = m0
            else:
                st.model = mt
            return self.goto(st, T, stop)
        if t or fl:
            if self.decided_exit(st, f, (T, F)):
                return 'dead'
        if t:
            self.assume(st, c)
            return self.goto(st, T, stop)
        if fl:
            self.assume(st, z3.Not(c))
            return self.goto(st, F, stop)
        return 'dead'

    def decided_exit(self, st, f, targets):
        """an exit test that the path condition decides, time after time: cut the loop"""
        if not f.loopcnt or self.bounded or self.in_contract(f.fn):
            return False
        loops = LL.loops_of(f.fn)
        for h, body in loops.items():
            if f.bi in body and any(t.idx not in body for t in targets) and h in f.loopcnt and (f.uid, h) not in self.active:
                c = f.loopcnt[h]
                if len(c) > 4 and c[4] >= self.opts.get("max_decided", 12):
                    snap, done = f.loopsnap[h]
                    if done[0]:
                        return True
                    done[0] = True
                    from . import loops as LP
                    self.worklist.extend(LP.cut(self, snap.clone(), h))
                    return True
                f.loopcnt[h] = c[:4] + [(c[4] if len(c) > 4 else 0) + 1]
        return False

    def maybe_cut(self, st, f, targets, stop):
        """called on an undecided branch.  If it leaves an enclosing loop that is
        not being cut already, cut that loop from its header snapshot."""
        loops = LL.loops_of(f.fn)
        best = None
        for h, body in loops.items():
            if f.bi in body and any(t.idx not in body for t in targets):
                if (f.uid, h) in self.active:
                    continue
                if best is None or len(body) < len(loops[best]):
                    best = h
        if best is None:
            return None
        cnt = f.loopcnt.get(best) if f.loopcnt else None
        if cnt is None:
            return None
        lim = self.bounded if self.bounded else st.unroll
        k = (f.fn.name, best)
        if cnt[1] < lim:
            f.loopcnt[best] = [cnt[0], cnt[1] + 1, cnt[2], cnt[3]]
            self.loops_unrolled[k] = max(self.loops_unrolled.get(k, 0), cnt[1] + 1)
            return None
        if self.bounded:
            self.bounded_hit += 1
            for t in targets:
                if t.idx not in loops[best]:
                    return t
            return 'dead'
        from . import loops as LP
        snap, done = f.loopsnap[best]
        if done[0]:
            return 'dead'      # a sibling path already cut this loop from the same header state
        done[0] = True
        self.worklist.extend(LP.cut(self, snap.clone(), best))
        return 'dead'

    def op_switch(self, st, f, I, stop):
        v = self.evt(f.regs, I.args[0], I.aty)
        cases, default = I.x
        if type(v) is int:
            for c, b in cases:
                if c == v:
                    return self.goto(st, b, stop)
            return self.goto(st, default, stop)
        w = I.aty.width
        todo = []
        groups = {}
        for c, b in cases:
            groups.setdefault(b.idx, (b, []))[1].append(c)
        for b, cs in groups.values():
            if b is default:
                continue
            todo.append((b, b_or(*[v == c for c in cs])))
        others = [z3.Not(v == c) for c, b in cases if b is not default]
        todo.append((default, b_and(*others)))
        feas = []
        for b, c in todo:
            if type(c) is bool:
                if c:
                    feas.append((b, None, st.model))
                continue
            self._last_model = None
            if self.feasible(st, c):
                m = self._last_model
                if m is None and st.model is not None:
                    m = st.model
                feas.append((b, c, m))
        if not feas:
            return 'dead'
        for b, c, m in feas[1:]:
            s2 = st.clone()
            if c is not None:
                s2.pc.append(c)
                s2.model = m
            s2.pending = (f.bi, b)
            self.worklist.append(s2)
        b, c, m = feas[0]
        if c is not None:
            st.pc.append(c)
            st.model = m
        return self.goto(st, b, stop)

    def op_ret(self, st, f, I, stop):
        v = None
        if I.args:
            v = self.evt(f.regs, I.args[0], I.aty)
        self.pop(st)
        if not st.frames:
            self.paths += 1
            self.path_done(st)
            return 'dead'
        g = st.frames[-1]
        call = f.call
        return self.ret_to(st, g, call, v, stop)

    def path_done(self, st):
        if self.checks:
            held = [k for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'mutex' and v]
            if st.ghost.get('check_locks'):
                self.ended = True
            self.covers["(end of proof reached)"] = self.covers.get("(end of proof reached)", 0) + 1

    def ret_to(self, st, g, call, v, stop):
        if call.dst is not None:
            g.regs[call.dst] = v
        if call.op == 'invoke':
            return self.goto(st, call.x[1], stop)
        g.ip += 1
        return None

    def pop(self, st):
        f = st.frames.pop()
        for o in f.allocas:
            st.mem.pop(o, None)
        return f

    def op_unreachable(self, st, f, I, stop):
        self.fail(st, "safety", "unreachable code reached")

    # --- exceptions
    def unwind(self, st, ptr, ti, stop):
        first = True
        while True:
            if not st.frames:
                return 'dead'
            f = st.frames[-1]
            I = f.fn.blocks[f.bi].insts[f.ip]
            call = I if (first or True) else None
            if I.op == 'invoke':
                ud = I.x[2]
                lp = ud.insts[0]
                if lp.op == 'landingpad':
                    cleanup, clauses, kinds = lp.x
                    sel = None
                    for c, k in zip(clauses, kinds):
                        if k == 'array':
                            continue
                        if self.catches(c, ti):
                            sel = self.typeid(c)
                            break
                    if sel is not None or cleanup:
                        st.exc = (ptr, ti, sel or 0)
                        return self.goto(st, ud, stop)
            if len(st.frames) == 1:
                self.fail(st, "safety", f"uncaught exception {ti}")
            self.pop(st)
            if stop is not None and f.uid == stop[0]:
                # left the frame of the loop being cut: continue outside
                st.exc = ('unwinding', ptr, ti)
                st.pending = None
                s = st
                return ('unwind', s)
            first = False

    def typeid(self, c):
        if c.obj == 0:
            n = '*'
        else:
            n = self.meta[c.obj].name
        return self.ctypeids.setdefault(n, len(self.ctypeids) + 1)

    def catches(self, clause, ti):
        if clause.obj == 0:
            return True
        return self.is_base(self.meta[clause.obj].name, ti)

    HIER = {"_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception",
            "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
            "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
            "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
            "_ZTISt12system_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
            "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt17bad_function_call": "_ZTISt9exception",
            "_ZTISt8bad_cast": "_ZTISt9exception"}

    def is_base(self, base, ti):
        while ti is not None:
            if ti == base:
                return True
            nxt = self.HIER.get(ti)
            if nxt is None:
                ref = self.m.globals.get(ti)
                init = LL.GetInitializer(ref) if ref else None
                if init:
                    v = self.const(init)
                    if isinstance(v, Agg) and len(v.v) >= 3 and isinstance(v.v[2], Ptr):
                        nxt = self.meta[v.v[2].obj].name
                    elif isinstance(v, Agg) and len(v.v) > 3:
                        raise Unsupported("multiple inheritance exception " + ti)
            ti = nxt
        return False

    def op_landingpad(self, st, f, I, stop):
        ptr, ti, sel = st.exc
        f.regs[I.dst] = Agg([ptr, sel])
        st.ghost['exc_ti'] = ti
        st.ghost[('ti', ptr.obj)] = ti
        f.ip += 1

    def op_resume(self, st, f, I, stop):
        a = self.ev(f.regs, I.args[0])
        ptr = a.v[0]
        ti = st.ghost[('ti', ptr.obj)]
        # resume: continue unwinding in the caller
        if len(st.frames) == 1:
            self.fail(st, "safety", f"uncaught exception {ti}")
        g = self.pop(st)
        if stop is not None and g.uid == stop[0]:
            st.exc = ('unwinding', ptr, ti)
            return ('unwind', st)
        return self.unwind(st, ptr, ti, stop)

    # --- calls
    def op_call(self, st, f, I, stop):
        callee = I.x[0]
        if callee[0] == 'asm' if type(callee) is tuple else False:
            f.ip += 1
            if I.dst is not None:
                f.regs[I.dst] = self.undef_of(I.ty)
            return None
        cp = self.ev(f.regs, callee)
        if not isinstance(cp, Ptr):
            raise Unsupported("call through a symbolic function pointer")
        if cp.obj <= 0:
            self.fail(st, "safety", "call through a null or invalid function pointer")
        fn = self.meta[cp.obj].func
        if fn is None or self.meta[cp.obj].kind != 'func':
            self.fail(st, "safety", "call through a data pointer")
        args = []
        for o, t in zip(I.args, I.aty):
            if o == ('meta',):
                args.append(None)
                continue
            v = f.regs[o] if type(o) is int else o[1]
            if v is UNDEF:
                v = self.undef_of(t)
            args.append(v)
        return self.call(st, f, I, fn, args, stop)

    op_invoke = op_call

    def find_model(self, name):
        r = self._model_cache.get(name, 0)
        if r == 0:
            r = self.models.get(name)
            if r is None:
                d = DEMANGLE.get(name, name)
                for pat, m in self.models.get('*patterns', []):
                    if pat.match(d):
                        r = m
                        break
            self._model_cache[name] = r
        return r

    def call(self, st, f, I, fn, args, stop):
        name = fn.name
        stub = self.repl.get(name)
        if stub is not None:
            self.contracts_used.add((name, stub))
            self.push(st, self.m.funcs[stub], args, I)
            return None
        mdl = self.find_model(name)
        if mdl is not None:
            v = mdl(self, st, I, args, fn)
            if isinstance(v, tuple) and v and v[0] == 'enter':
                self.push(st, v[1], v[2], I)
                return None
            return self.ret_to(st, st.frames[-1], I, v, stop)
        if fn.decl:
            raise Unsupported(f"external function without model: {DEMANGLE.get(name, name)} called at {self.locstr(st)}")
        self.push(st, fn, args, I)
        return None

    # --- memory instructions
    def op_alloca(self, st, f, I, stop):
        n = self.ev(f.regs, I.args[0])
        size = mul(n, I.x.size) if n != 1 else I.x.size
        p = self.alloc(st, f.fn.varnames.get(I.dst, "tmp"), size, 'stack')
        f.allocas.append(p.obj)
        f.regs[I.dst] = p
        f.ip += 1

    def op_load(self, st, f, I, stop):
        a = I.args[0]
        p = f.regs[a] if type(a) is int else a[1]
        if type(p) is not Ptr:
            p = self.int_to_ptr(p)
        v = f.regs[I.dst] = self.load(st, p, I.ty)
        if self.copylog is not None and I.ty.size == 1 and type(v) is not int and not isinstance(v, (Ptr, FP)):
            self.bytesrc[v.get_id()] = (p, v)
        f.ip += 1

    def op_store(self, st, f, I, stop):
        a, b = I.args
        v = f.regs[a] if type(a) is int else a[1]
        p = f.regs[b] if type(b) is int else b[1]
        if type(p) is not Ptr:
            p = self.int_to_ptr(p)
        if self.copylog is not None and I.aty.size == 1 and type(v) is not int and not isinstance(v, (Ptr, FP)) and v is not UNDEF:
            o = self.bytesrc.get(v.get_id())
            if o is not None:
                self.copylog.append((p, o[0]))
        self.store(st, p, v, I.aty)
        f.ip += 1

    def op_gep(self, st, f, I, stop):
        a = I.args[0]
        p = f.regs[a] if type(a) is int else a[1]
        if type(p) is not Ptr:
            p = self.int_to_ptr(p) if p is not UNDEF else Ptr(-1, 0)
        off, terms = I.x
        o = add(p.off, off) if off else p.off
        for t, w, sc in terms:
            v = f.regs[t] if type(t) is int else t[1]
            if isinstance(v, Ptr):
                v = self.ptr_to_int(v)
            if v is UNDEF:
                v = z3.BitVec(f"undef!{fresh_id()}", w)
            v = sext(v, w, 64)
            o = add(o, mul(v, sc))
        f.regs[I.dst] = Ptr(p.obj, o)
        f.ip += 1

    def op_cmpxchg(self, st, f, I, stop):
        p = self.ev(f.regs, I.args[0])
        exp = self.ev(f.regs, I.args[1])
        new = self.ev(f.regs, I.args[2])
        t = I.ty.elems[0]
        old = self.load(st, p, t)
        c = self.cmp_eq(st, old, exp, t)
        self.dec, self.dec_idx = [], 0
        if type(c) is bool:
            if c:
                self.store(st, p, new, t)
        else:
            self.store(st, p, ite(c, new, old, t.width), t)
        f.regs[I.dst] = Agg([old, c])
        f.ip += 1

    def cmp_eq(self, st, a, b, t):
        if t.kind == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_cmp(st, 'eq', a, b)
        if t.width == 1:
            return sbool(self.B(a) == self.B(b))
        return eq(a, b, t.width)

    def op_atomicrmw(self, st, f, I, stop):
        p = self.ev(f.regs, I.args[0])
        v = self.ev(f.regs, I.args[1])
        t = I.ty
        self.dec, self.dec_idx = [], 0
        old = self.load(st, p, t)
        k = I.x
        w = t.width
        if k == 0:
            new = v
        elif k == 1:
            new = add(old, v, w)
        elif k == 2:
            new = sub(old, v, w)
        else:
            new = {3: self.i_and, 5: self.i_or, 6: self.i_xor}[k](old, v, w)
        self.store(st, p, new, t)
        f.regs[I.dst] = old
        f.ip += 1

    def op_fence(self, st, f, I, stop):
        f.ip += 1

    # --- arithmetic
    def i_and(self, a, b, w):
        if w == 1:
            return b_and(a, b)
        if isint(a) and isint(b):
            return a & b
        return simp(bv(a, w) & bv(b, w))

    def i_or(self, a, b, w):
        if w == 1:
            return b_or(a, b)
        if isint(a) and isint(b):
            return a | b
        return simp(bv(a, w) | bv(b, w))

    def i_xor(self, a, b, w):
        if w == 1:
            if type(a) is bool and type(b) is bool:
                return a != b
            if type(b) is bool:
                return b_not(a) if b else a
            if type(a) is bool:
                return b_not(b) if a else b
            return sbool(z3.Xor(a, b))
        if isint(a) and isint(b):
            return a ^ b
        return simp(bv(a, w) ^ bv(b, w))

    def binop(self, st, op, a, b, w):
        if isinstance(a, Ptr):
            if isinstance(b, Ptr) and op == 'sub' and a.obj == b.obj:
                return sub(a.off, b.off)
            if op in ('add', 'sub') and not isinstance(b, Ptr):
                r = add(a.off, b) if op == 'add' else sub(a.off, b)
                return Ptr(a.obj, r)
            a = self.ptr_to_int(a)
        if isinstance(b, Ptr):
            if op == 'add':
                return Ptr(b.obj, add(b.off, a))
            b = self.ptr_to_int(b)
        if op == 'add':
            if w == 1:
                return self.i_xor(a, b, 1)
            return add(a, b, w)
        if op == 'sub':
            return sub(a, b, w)
        if op == 'mul':
            return mul(a, b, w)
        if op == 'and':
            return self.i_and(a, b, w)
        if op == 'or':
            return self.i_or(a, b, w)
        if op == 'xor':
            return self.i_xor(a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if isint(a) and isint(b):
                if b >= w:
                    return 0
                if op == 'shl':
                    return (a << b) & mask(w)
                if op == 'lshr':
                    return a >> b
                return (sgn(a, w) >> b) & mask(w)
            A, B = bv(a, w), bv(b, w)
            return simp(A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if isint(b):
                if b == 0:
                    self.fail(st, "safety", "division by zero")
            else:
                self.obligation(st, z3.Not(b == 0), "safety", "division by zero")
            if isint(a) and isint(b):
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & mask(w)
            A, B = bv(a, w), bv(b, w)
            return simp({'udiv': z3.UDiv, 'urem': z3.URem, 'srem': z3.SRem}.get(op, lambda x, y: x / y)(A, B))
        raise Unsupported(op)

    def _bin(op):
        def h(self, st, f, I, stop):
            a, b = I.args
            t = I.ty
            x = f.regs[a] if type(a) is int else a[1]
            y = f.regs[b] if type(b) is int else b[1]
            if x is UNDEF:
                x = self.undef_of(t)
            if y is UNDEF:
                y = self.undef_of(t)
            if t.kind != 'int':
                raise Unsupported(f"vector {op}")
            r = self.binop(st, op, x, y, t.width)
            if NAMES.limit and op in ('add', 'sub', 'mul', 'xor') and t.width >= 8 and z3.is_bv(r) \
                    and not any(z3.is_bv(v) and v.eq(r) for v in (x, y)):
                r = NAMES.name(r)
            f.regs[I.dst] = r
            f.ip += 1
        return h

    for _o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
        locals()['op_' + _o] = _bin(_o)
    del _bin, _o

    def _fp(self, st, f, I, stop):
        if I.ty.kind == 'int':
            f.regs[I.dst] = z3.BitVec(f"fp!{fresh_id()}", I.ty.width) if I.ty.width > 1 else z3.Bool(f"fp!{fresh_id()}")
        else:
            f.regs[I.dst] = FP(None)
        f.ip += 1
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = op_fneg = op_fcmp = op_uitofp = op_sitofp = op_fptoui = _fp
    op_fptosi = op_fptrunc = op_fpext = _fp

    def B(self, v):
        if type(v) is bool:
            return z3.BoolVal(v)
        return v

    def ptr_cmp(self, st, pred, a, b):
        if not isinstance(a, Ptr):
            a = self.int_to_ptr(a) if not isinstance(a, Ptr) else a
        if not isinstance(b, Ptr):
            b = self.int_to_ptr(b)
        if -1 in (a.obj, b.obj):
            return z3.Bool(f"wildcmp!{fresh_id()}")
        if a.obj == b.obj:
            x, y = a.off, b.off
            if pred == 'eq':
                return eq(x, y)
            if pred == 'ne':
                return b_not(eq(x, y))
            if pred == 'ult':
                return ult(x, y)
            if pred == 'ule':
                return ule(x, y)
            if pred == 'ugt':
                return ult(y, x)
            if pred == 'uge':
                return ule(y, x)
            d = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}[pred]
            return self.ptr_cmp(st, d, a, b)
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        x, y = bv(self.ptr_to_int(a), 64), bv(self.ptr_to_int(b), 64)
        return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}.get(pred, z3.ULT)(x, y)

    def op_icmp(self, st, f, I, stop):
        t = I.aty
        a = self.evt(f.regs, I.args[0], t)
        b = self.evt(f.regs, I.args[1], t)
        f.regs[I.dst] = self.icmp(st, I.x, a, b, t)
        f.ip += 1

    def icmp(self, st, pred, a, b, t):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_cmp(st, pred, a, b)
        w = t.width
        if w == 1:
            r = sbool(self.B(a) == self.B(b)) if pred in ('eq', 'ne') else None
            if r is None:
                a, b = zext(a, 1, 8), zext(b, 1, 8)
                w = 8
            else:
                return r if pred == 'eq' else b_not(r)
        if isint(a) and isint(b):
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
        A, B = bv(a, w), bv(b, w)
        if pred == 'eq':
            return sbool(A == B)
        if pred == 'ne':
            return sbool(A != B)
        r = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
             'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y,
             'sge': lambda x, y: x >= y}[pred](A, B)
        return sbool(r)

    def op_select(self, st, f, I, stop):
        c = self.ev(f.regs, I.args[0])
        if c is UNDEF:
            c = z3.Bool(f"undef!{fresh_id()}")
        a = self.evt(f.regs, I.args[1], I.ty)
        b = self.evt(f.regs, I.args[2], I.ty)
        c = sbool(c)
        if type(c) is bool:
            r = a if c else b
        elif isinstance(a, (Ptr, Agg, FP)) or isinstance(b, (Ptr, Agg, FP)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                r = Ptr(a.obj, ite(c, a.off, b.off, 64))
            else:
                if self.cur_snap is None or not self.worklist is not None:
                    raise Unsupported("select on aggregates")
                r = a if self.branch(st, c) else b
        elif I.ty.width == 1:
            r = sbool(z3.If(c, self.B(a), self.B(b)))
        else:
            r = ite(c, a, b, I.ty.width)
        f.regs[I.dst] = r
        f.ip += 1

    def op_trunc(self, st, f, I, stop):
        v = self.evt(f.regs, I.args[0], I.aty)
        if isinstance(v, Ptr):
            v = self.ptr_to_int(v)
        if I.ty.width == 1:
            r = bool(v & 1) if isint(v) else sbool(z3.Extract(0, 0, v) == 1)
        else:
            r = trunc(v, I.aty.width, I.ty.width)
        f.regs[I.dst] = r
        f.ip += 1

    def op_zext(self, st, f, I, stop):
        f.regs[I.dst] = zext(self.evt(f.regs, I.args[0], I.aty), I.aty.width, I.ty.width)
        f.ip += 1

    def op_sext(self, st, f, I, stop):
        f.regs[I.dst] = sext(self.evt(f.regs, I.args[0], I.aty), I.aty.width, I.ty.width)
        f.ip += 1

    def op_ptrtoint(self, st, f, I, stop):
        v = self.evt(f.regs, I.args[0], I.aty)
        f.regs[I.dst] = v if I.ty.width == 64 else trunc(self.ptr_to_int(v), 64, I.ty.width)
        f.ip += 1

    def op_inttoptr(self, st, f, I, stop):
        f.regs[I.dst] = self.int_to_ptr(self.evt(f.regs, I.args[0], I.aty))
        f.ip += 1

    def op_bitcast(self, st, f, I, stop):
        v = self.evt(f.regs, I.args[0], I.aty)
        if I.ty.kind != I.aty.kind:
            v = FP(None) if I.ty.kind == 'fp' else z3.BitVec(f"fpi!{fresh_id()}", I.ty.width)
        f.regs[I.dst] = v
        f.ip += 1

    def op_freeze(self, st, f, I, stop):
        f.regs[I.dst] = self.evt(f.regs, I.args[0], I.ty)
        f.ip += 1

    def op_extractvalue(self, st, f, I, stop):
        v = self.evt(f.regs, I.args[0], I.aty)
        t = I.aty
        for i in I.x:
            v = v.v[i]
            t = t.elems[i] if t.kind == 'struct' else t.elem
            if v is UNDEF:
                v = self.undef_of(t)
        f.regs[I.dst] = v
        f.ip += 1

    def op_insertvalue(self, st, f, I, stop):
        v = self.ev(f.regs, I.args[0])
        if v is UNDEF:
            t = I.ty
            v = Agg([UNDEF] * (len(t.elems) if t.kind == 'struct' else t.count))
        x = self.ev(f.regs, I.args[1])

        def ins(a, path):
            if not path:
                return x
            n = list(a.v)
            n[path[0]] = ins(n[path[0]], path[1:])
            return Agg(n)
        f.regs[I.dst] = ins(v, I.x)
        f.ip += 1

    def cmp_bool(self, a, b):
        return sbool(self.B(a) == self.B(b))
