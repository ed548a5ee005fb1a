"""Integer view of bit-vector constraints.

Offsets and lengths are 64-bit machine words, and most obligations are about
differences of them; linear integer arithmetic settles these orders of magnitude
faster than bit-blasting.  The translation is exact (wrap-around is a quotient
variable, extracts are quotient/remainder definitions); operators with no linear
form become uninterpreted, which is sound for 'unsat', and a 'sat' answer is
then confirmed by evaluating the original formulas (or left to the BV solver).
"""
import random
import z3
from .values import NAMES
from .values import fresh_id

K = z3
SMALL = 1 << 46


class Translator:
    def __init__(self):
        self.memo = {}      # ast id -> (expr kept alive, translated)
        self.own = {}       # ast id -> list of side constraints
        self.kids = {}
        self.hard = set()   # ast ids with an uninterpreted operator
        self.cons = {}      # constraint id -> (expr, [int formulas], hard?)
        self.vars = {}
        self.wrap = {}
        self.bnd = {}       # ast id -> upper bound of the integer term
        self.divs = {}      # (dividend id, divisor id, sort) -> (q, r, q*divisor)
        self.bydiv = {}     # divisor id -> [(q, q*divisor)]

    def constraint(self, c):
        """-> (integer formula, [(id, side constraints)], hard?, [wrap variables])"""
        r = self.cons.get(c.get_id())
        if r is not None:
            return r[1]
        b = self.tr(c)
        side = []
        wraps = []
        seen = set()
        hard = False
        st = [c]
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            o = self.own.get(i)
            if o:
                side.append((i, o))
            w = self.wrap.get(i)
            if w is not None:
                wraps.append(w)
            if i in self.hard:
                hard = True
            st.extend(self.kids.get(i, ()))
        r = (b, side, hard, wraps)
        self.cons[c.get_id()] = (c, r)
        return r

    def tr(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r[1]
        # iterative post-order to avoid deep recursion
        stack = [(e, False)]
        while stack:
            x, done = stack.pop()
            xi = x.get_id()
            if xi in self.memo:
                continue
            ch = self.kids.get(xi)
            if ch is None:
                ch = x.children()
                self.kids[xi] = ch
            if not done:
                stack.append((x, True))
                for c in ch:
                    if c.get_id() not in self.memo:
                        stack.append((c, False))
            else:
                self.memo[xi] = (x, self.node(x, ch))
        return self.memo[i][1]

    def t(self, e):
        return self.memo[e.get_id()][1]

    def newint(self, nm, w, key):
        v = z3.Int(f"{nm}#{fresh_id()}")
        self.own.setdefault(key, []).append(z3.And(v >= 0, v < (1 << w)))
        return v

    def opaque(self, x, i):
        self.hard.add(i)
        if z3.is_bool(x):
            return z3.Bool(f"hb#{fresh_id()}")
        return self.newint("h", x.size(), i)

    def split(self, i, a, lo, w):
        """fresh q, r with a = q * 2^lo + r"""
        if lo == 0:
            return a, None
        q = z3.Int(f"q#{fresh_id()}")
        r = z3.Int(f"r#{fresh_id()}")
        self.own.setdefault(i, []).append(
            z3.And(a == q * (1 << lo) + r, r >= 0, r < (1 << lo), q >= 0, q < (1 << (w - lo))))
        return q, r

    def signed(self, a, w):
        return z3.If(a >= (1 << (w - 1)), a - (1 << w), a)

    def node(self, x, ch):
        i = x.get_id()
        k = x.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return z3.BoolVal(True)
        if k == z3.Z3_OP_FALSE:
            return z3.BoolVal(False)
        T = [self.t(c) for c in ch]
        if k == z3.Z3_OP_AND:
            return z3.And(*T)
        if k == z3.Z3_OP_OR:
            return z3.Or(*T)
        if k == z3.Z3_OP_NOT:
            return z3.Not(T[0])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(T[0], T[1])
        if k == z3.Z3_OP_XOR:
            return z3.Xor(T[0], T[1])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return T[0] == T[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*T)
        if k == z3.Z3_OP_ITE:
            if z3.is_bv(x):
                self.bnd[i] = max(self.bound(ch[1]), self.bound(ch[2]))
            return z3.If(T[0], T[1], T[2])
        if k == z3.Z3_OP_UNINTERPRETED:
            d = x.decl()
            if not ch:
                if z3.is_bool(x):
                    return z3.Bool("b#" + d.name())
                w = x.size()
                v = z3.Int("i#" + d.name())
                if d.name().startswith("sz!"):      # sizes and positions in objects: asserted at creation
                    self.bnd[i] = SMALL
                    self.own[i] = [z3.And(v >= 0, v <= SMALL)]
                else:
                    self.own[i] = [z3.And(v >= 0, v < (1 << w))]
                return v
            dom = [z3.IntSort() if not z3.is_bool(c) else z3.BoolSort() for c in ch]
            if z3.is_bool(x):
                return z3.Function("f#" + d.name(), *dom, z3.BoolSort())(*T)
            v = z3.Function("f#" + d.name(), *dom, z3.IntSort())(*T)
            self.own[i] = [z3.And(v >= 0, v < (1 << x.size()))]
            return v
        if k == z3.Z3_OP_ULEQ:
            return T[0] <= T[1]
        if k == z3.Z3_OP_ULT:
            return T[0] < T[1]
        if k == z3.Z3_OP_UGEQ:
            return T[0] >= T[1]
        if k == z3.Z3_OP_UGT:
            return T[0] > T[1]
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            w = ch[0].size()
            a, b = self.signed(T[0], w), self.signed(T[1], w)
            return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k]
        if not z3.is_bv(x):
            return self.opaque(x, i)
        w = x.size()
        if z3.is_bv_value(x):
            return z3.IntVal(x.as_long())
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
            M = 1 << w
            lo = hi = 0
            terms = []

            def coef(c, tc):
                """(coefficient, int term, bits)"""
                if z3.is_bv_value(c):
                    n = c.as_long()
                    if n >= M // 2:
                        n -= M
                    return n, None, 0
                if c.decl().kind() == z3.Z3_OP_BMUL and len(c.children()) == 2 and z3.is_bv_value(c.arg(0)):
                    n = c.arg(0).as_long()
                    if n >= M // 2:
                        n -= M
                    if abs(n) <= 1 << 20:
                        return n, self.t(c.arg(1)), self.bound(c.arg(1))
                return 1, tc, self.bound(c)
            if k == z3.Z3_OP_BADD:
                items = [coef(c, tc) for c, tc in zip(ch, T)]
            elif k == z3.Z3_OP_BSUB:
                items = [coef(c, tc) for c, tc in zip(ch, T)]
                items = items[:1] + [(-n, v, b) for n, v, b in items[1:]]
            elif k == z3.Z3_OP_BNEG:
                items = [(-1, T[0], self.bound(ch[0]))]
            else:
                if len(ch) == 2 and z3.is_bv_value(ch[0]):
                    n = ch[0].as_long()
                    if n >= M // 2:
                        n -= M
                    items = [(n, T[1], self.bound(ch[1]))]
                elif len(ch) == 2 and z3.is_bv_value(ch[1]):
                    n = ch[1].as_long()
                    if n >= M // 2:
                        n -= M
                    items = [(n, T[0], self.bound(ch[0]))]
                elif len(ch) == 2:
                    # symbolic product: an uninterpreted non-negative integer, wrapped
                    self.hard.add(i)
                    p = self.prod(T[0], T[1])
                    r = z3.Int(f"a#{fresh_id()}")
                    q = z3.Int(f"w#{fresh_id()}")
                    self.own[i] = [z3.And(r == p - q * M, r >= 0, r < M, q >= 0, q < M, p >= 0,
                                          z3.Implies(z3.Or(T[0] == 0, T[1] == 0), p == 0),
                                          z3.Implies(T[0] == 1, p == T[1]), z3.Implies(T[1] == 1, p == T[0]),
                                          z3.Implies(z3.And(T[0] >= 1, T[1] >= 1), z3.And(p >= T[0], p >= T[1])))]
                    self.wrap[i] = q
                    return r
                else:
                    return self.opaque(x, i)
            s = None
            for n, v, ub in items:
                if v is None:
                    tm = z3.IntVal(n)
                    lo += n
                    hi += n
                else:
                    tm = v if n == 1 else n * v
                    if n > 0:
                        hi += n * ub
                    else:
                        lo += n * ub
                s = tm if s is None else s + tm
            if lo >= 0 and hi < M:
                self.bnd[i] = hi
                return s
            r = z3.Int(f"a#{fresh_id()}")
            q = z3.Int(f"w#{fresh_id()}")
            self.own[i] = [z3.And(r == s - q * M, r >= 0, r < M, q >= lo // M, q <= hi // M)]
            if lo // M != hi // M:
                self.wrap[i] = q
            return r
        if k == z3.Z3_OP_CONCAT:
            r = None
            sh = w
            for c, tc in zip(ch, T):
                sh -= c.size()
                if z3.is_bv_value(c) and c.as_long() == 0:
                    continue
                tm = tc if sh == 0 else tc * (1 << sh)
                r = tm if r is None else r + tm
            tot = 0
            for c in ch:
                tot = (tot << c.size()) + self.bound(c)
            self.bnd[i] = tot
            return r if r is not None else z3.IntVal(0)
        if k == z3.Z3_OP_EXTRACT:
            h, l = x.params()
            sw = ch[0].size()
            a = T[0]
            q, _ = self.split(i, a, l, sw)
            if h == sw - 1:
                return q
            q2 = z3.Int(f"q#{fresh_id()}")
            r2 = z3.Int(f"r#{fresh_id()}")
            n = h - l + 1
            self.own.setdefault(i, []).append(
                z3.And(q == q2 * (1 << n) + r2, r2 >= 0, r2 < (1 << n), q2 >= 0, q2 < (1 << (sw - l - n))))
            return r2
        if k == z3.Z3_OP_ZERO_EXT:
            self.bnd[i] = self.bound(ch[0])
            return T[0]
        if k == z3.Z3_OP_SIGN_EXT:
            n = ch[0].size()
            return z3.If(T[0] >= (1 << (n - 1)), T[0] + ((1 << w) - (1 << n)), T[0])
        if k == z3.Z3_OP_BNOT:
            return (1 << w) - 1 - T[0]
        if k in (z3.Z3_OP_BAND,) and len(ch) == 2 and any(z3.is_bv_value(c) for c in ch):
            c, v = (ch[0].as_long(), T[1]) if z3.is_bv_value(ch[0]) else (ch[1].as_long(), T[0])
            # contiguous mask
            if c & (c + 1) == 0:
                n = c.bit_length()
                q, r = self.split(i, v, n, w) if n < w else (None, v)
                return r
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n < w:
                q, _ = self.split(i, T[0], n, w)
                return q
            return z3.IntVal(0)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w:
                return z3.IntVal(0)
            q, r = self.split(i, T[0], w - n, w) if n else (None, T[0])
            return r * (1 << n)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) \
                and ch[1].as_long() > 0:
            n = ch[1].as_long()
            q = z3.Int(f"q#{fresh_id()}")
            r = z3.Int(f"r#{fresh_id()}")
            self.own[i] = [z3.And(T[0] == q * n + r, r >= 0, r < n, q >= 0)]
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        UD = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
        UR = (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)
        SD = (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)
        SR = (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)
        if k in UD + UR + SD + SR:
            # division by a symbol: exact quotient/remainder on (non-negative,
            # positive) operands, products uninterpreted but monotonic
            self.hard.add(i)
            q, r, p, side = self.division(ch, T)
            self.own[i] = side
            v = q if k in UD + SD else r
            H = 1 << (w - 1)
            h = z3.Int(f"h#{fresh_id()}")
            self.own[i] = self.own[i] + [z3.And(h >= 0, h < (1 << w))]
            if k in UD + UR:
                return z3.If(T[1] > 0, v, h)
            return z3.If(z3.And(T[1] > 0, T[1] < H, T[0] < H), v, h)
        return self.opaque(x, i)

    def bound(self, e):
        if z3.is_bv_value(e):
            return e.as_long()
        b = self.bnd.get(e.get_id())
        return (1 << e.size()) - 1 if b is None else b

    def prod(self, a, b):
        if a.get_id() > b.get_id():
            a, b = b, a
        return z3.Function("mul", z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)

    def division(self, ch, T):
        key = (ch[0].get_id(), ch[1].get_id())
        d = self.divs.get(key)
        if d is None:
            q = z3.Int(f"q#{fresh_id()}")
            r = z3.Int(f"r#{fresh_id()}")
            y = T[1]
            p = self.prod(q, y)
            side = [z3.Implies(y > 0, z3.And(T[0] == p + r, r >= 0, r < y, q >= 0, q <= T[0], p >= 0)),
                    z3.Implies(q == 0, p == 0), z3.Implies(z3.And(y > 0, q == 1), p == y)]
            for q2, p2 in self.bydiv.get(ch[1].get_id(), ()):
                side.append(z3.Implies(y > 0, z3.And(z3.Implies(q < q2, p + y <= p2), z3.Implies(q2 < q, p2 + y <= p))))
            self.bydiv.setdefault(ch[1].get_id(), []).append((q, p))
            d = self.divs[key] = (q, r, p, side, ch)
        return d[:4]


class Guess:
    """a model that takes what the path condition rests on from `base` and makes up the rest"""
    def __init__(self, seed, base, pc):
        self.seed, self.base, self.fixed = seed, base, set()
        seen, todo = set(), list(pc)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in NAMES.defs:
                self.fixed.add(x.decl().name())
            todo.extend(x.children())

    def eval(self, t, model_completion=True):
        if t.decl().name() in self.fixed:
            v = self.base.val(t)
        else:
            r = random.Random(f"{self.seed} {t}")
            v = r.random() < 0.5 if z3.is_bool(t) else r.getrandbits(t.size())
        return z3.BoolVal(v) if z3.is_bool(t) else z3.BitVecVal(v, t.size())


class Model:
    """values for BV variables and functions, from an integer model or a BV model"""

    def __init__(self, m, isint):
        self.m, self.isint = m, isint
        self.memo = {}
        self.keep = []

    def val(self, e):
        """python int / bool value of a BV or Bool term"""
        memo = self.memo
        r = memo.get(e.get_id())
        if r is not None:
            return r
        stack = [(e, False)]
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in memo:
                continue
            ch = x.children()
            if not ch and i in NAMES.defs:
                ch = [NAMES.defs[i]]
                if done:
                    self.keep.append(x)
                    memo[i] = memo[ch[0].get_id()]
                    continue
            if not done and ch:
                stack.append((x, True))
                for c in ch:
                    if c.get_id() not in memo:
                        stack.append((c, False))
            else:
                self.keep.append(x)
                memo[i] = self.calc(x, [memo[c.get_id()] for c in ch])
        return memo[e.get_id()]

    def ufval(self, x, V):
        d = x.decl()
        isb = z3.is_bool(x)
        if self.isint:
            if not V:
                t = z3.Bool("b#" + d.name()) if isb else z3.Int("i#" + d.name())
            else:
                dom = [z3.BoolSort() if z3.is_bool(c) else z3.IntSort() for c in x.children()]
                fn = z3.Function("f#" + d.name(), *dom, z3.BoolSort() if isb else z3.IntSort())
                t = fn(*[z3.BoolVal(v) if type(v) is bool else z3.IntVal(v) for v in V])
        else:
            if not V:
                t = x
            else:
                args = [z3.BoolVal(v) if type(v) is bool else z3.BitVecVal(v, c.size()) for v, c in zip(V, x.children())]
                t = d(*args)
        r = self.m.eval(t, model_completion=True)
        if isb:
            return z3.is_true(r)
        n = r.as_long()
        return n & ((1 << x.size()) - 1)

    def calc(self, x, V):
        k = x.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_AND:
            return all(V)
        if k == z3.Z3_OP_OR:
            return any(V)
        if k == z3.Z3_OP_NOT:
            return not V[0]
        if k == z3.Z3_OP_IMPLIES:
            return (not V[0]) or V[1]
        if k == z3.Z3_OP_XOR:
            return V[0] != V[1]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return V[0] == V[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(V)) == len(V)
        if k == z3.Z3_OP_ITE:
            return V[1] if V[0] else V[2]
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.ufval(x, V)
        if z3.is_bv_value(x):
            return x.as_long()
        if k == z3.Z3_OP_ULEQ:
            return V[0] <= V[1]
        if k == z3.Z3_OP_ULT:
            return V[0] < V[1]
        if k == z3.Z3_OP_UGEQ:
            return V[0] >= V[1]
        if k == z3.Z3_OP_UGT:
            return V[0] > V[1]
        ch = x.children()

        def s(v, w):
            return v - (1 << w) if v >> (w - 1) else v
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            w = ch[0].size()
            a, b = s(V[0], w), s(V[1], w)
            return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k]
        w = x.size()
        M = (1 << w) - 1
        if k == z3.Z3_OP_BADD:
            return sum(V) & M
        if k == z3.Z3_OP_BSUB:
            return (V[0] - sum(V[1:])) & M
        if k == z3.Z3_OP_BNEG:
            return -V[0] & M
        if k == z3.Z3_OP_BMUL:
            r = 1
            for v in V:
                r = r * v & M
            return r
        if k == z3.Z3_OP_CONCAT:
            r = 0
            for c, v in zip(ch, V):
                r = (r << c.size()) | v
            return r
        if k == z3.Z3_OP_EXTRACT:
            h, l = x.params()
            return (V[0] >> l) & ((1 << (h - l + 1)) - 1)
        if k == z3.Z3_OP_ZERO_EXT:
            return V[0]
        if k == z3.Z3_OP_SIGN_EXT:
            return s(V[0], ch[0].size()) & M
        if k == z3.Z3_OP_BNOT:
            return ~V[0] & M
        if k == z3.Z3_OP_BAND:
            r = M
            for v in V:
                r &= v
            return r
        if k == z3.Z3_OP_BOR:
            r = 0
            for v in V:
                r |= v
            return r
        if k == z3.Z3_OP_BXOR:
            r = 0
            for v in V:
                r ^= v
            return r
        if k == z3.Z3_OP_BSHL:
            return (V[0] << V[1]) & M if V[1] < w else 0
        if k == z3.Z3_OP_BLSHR:
            return V[0] >> V[1] if V[1] < w else 0
        if k == z3.Z3_OP_BASHR:
            return (s(V[0], w) >> min(V[1], w)) & M
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            return V[0] // V[1] if V[1] else M
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            return V[0] % V[1] if V[1] else V[0]
        # anything else: let z3 fold it
        args = [z3.BoolVal(v) if type(v) is bool else z3.BitVecVal(v, c.size()) for v, c in zip(V, ch)]
        r = z3.simplify(x.decl()(*args))
        if z3.is_bool(x):
            return z3.is_true(r)
        return r.as_long()
