"""Value layer: Python ints where concrete, z3 terms where symbolic."""
import z3

M64 = (1 << 64) - 1
BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
_cnt = [0]


def fresh_id():
    _cnt[0] += 1
    return _cnt[0]


def mask(w):
    return (1 << w) - 1


def isint(v):
    return type(v) is int


def bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if type(v) is bool:
        return z3.BitVecVal(int(v), w)
    if isinstance(v, Ptr):
        raise TypeError("pointer used as int term")
    return v


def simp(e):
    r = z3.simplify(e)
    if z3.is_bv_value(r):
        return r.as_long()
    return r


class Names:
    """Long computations (option "names"): a term of more than `limit` nodes is
    given a name, the same name for the same term.  Queries go without the
    definitions first: leaving them out only weakens what is known."""
    def __init__(self):
        self.limit = 0
        self.by_id = {}
        self.defs = {}

    def big(self, e):
        n, todo = 0, [e]
        while todo:
            x = todo.pop()
            n += 1
            if n > self.limit:
                return True
            todo.extend(x.children())
        return False

    def name(self, e):
        if not self.big(e):
            return e
        k = e.get_id()
        c = self.by_id.get(k)
        if c is None:
            c = z3.BitVec(f"term!{fresh_id()}", e.size())
            self.by_id[k] = (c, e)
            self.defs[c.get_id()] = e
            return c
        return c[0]

    def used(self, cs, depth=1 << 30):
        """definitions the constraints rest on, `depth` levels deep, and the leaves"""
        out, leaves, seen, level = [], [], set(), list(cs)
        while level and depth >= 0:
            depth -= 1
            todo, level = level, []
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                d = self.defs.get(x.get_id())
                if d is not None:
                    if depth >= 0:
                        out.append(x == d)
                        level.append(d)
                    continue
                if z3.is_bv(x) and (x.num_args() == 0 and not z3.is_bv_value(x) or
                                    x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED)):
                    leaves.append(x)
                todo.extend(x.children())
        return out, leaves


NAMES = Names()


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def tobool(v):
    """condition -> python bool or z3 BoolRef (simplified)"""
    if type(v) is bool:
        return v
    if type(v) is int:
        return bool(v)
    return v


def b_not(c):
    if type(c) is bool:
        return not c
    return z3.Not(c)


def b_and(*cs):
    out = []
    for c in cs:
        if type(c) is bool:
            if not c:
                return False
            continue
        out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*cs):
    out = []
    for c in cs:
        if type(c) is bool:
            if c:
                return True
            continue
        out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_imp(a, b):
    return b_or(b_not(a), b)


def sbool(c):
    """simplify a condition to python bool if possible"""
    if type(c) is bool:
        return c
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return c


def ite(c, a, b, w):
    if type(c) is bool:
        return a if c else b
    if type(a) is int and type(b) is int and a == b:
        return a
    if a is b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def add(a, b, w=64):
    if type(a) is int and type(b) is int:
        return (a + b) & mask(w)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    return simp(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if type(a) is int and type(b) is int:
        return (a - b) & mask(w)
    if type(b) is int and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if type(a) is int and type(b) is int:
        return (a * b) & mask(w)
    if type(b) is int:
        if b == 1:
            return a
        if b == 0:
            return 0
    if type(a) is int:
        if a == 1:
            return b
        if a == 0:
            return 0
    return simp(bv(a, w) * bv(b, w))


def eq(a, b, w=64):
    if type(a) is int and type(b) is int:
        return a == b
    if a is b:
        return True
    return sbool(bv(a, w) == bv(b, w))


def ult(a, b, w=64):
    if type(a) is int and type(b) is int:
        return a < b
    return sbool(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if type(a) is int and type(b) is int:
        return a <= b
    return sbool(z3.ULE(bv(a, w), bv(b, w)))


def zext(v, fr, to):
    if type(v) is int:
        return v
    if type(v) is bool:
        return int(v)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, to), z3.BitVecVal(0, to))
    if fr == to:
        return v
    return simp(z3.ZeroExt(to - fr, v))


def sext(v, fr, to):
    if type(v) is int:
        return sgn(v, fr) & mask(to)
    if type(v) is bool:
        return mask(to) if v else 0
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(mask(to), to), z3.BitVecVal(0, to))
    if fr == to:
        return v
    return simp(z3.SignExt(to - fr, v))


def trunc(v, fr, to):
    if type(v) is int:
        return v & mask(to)
    return simp(z3.Extract(to - 1, 0, v))


def bytes_of(v, n):
    """little endian list of n byte values"""
    if type(v) is int:
        return [(v >> (8 * i)) & 255 for i in range(n)]
    if n == 1:
        return [v]
    if v is DEAD:
        return [z3.BitVec(f"dead!{fresh_id()}", 8) for i in range(n)]
    return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]


def from_bytes(bs):
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


class Ptr:
    """(object id, byte offset).  obj 0 is the null pointer, obj -1 an invalid one."""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return f"Ptr({self.obj},{self.off})"


NULL = Ptr(0, 0)


class _Mark:
    pass


UNDEF = _Mark()
BIGZERO = _Mark()
DEAD = _Mark()         # a memory cell whose value at a loop head is not tracked: must not be read


class Agg:
    """first-class aggregate"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return f"Agg({self.v})"


class FP:
    """opaque floating point value"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- byte chains
class Node:
    """immutable description of a byte sequence indexed by offset"""
    __slots__ = ("id", "depth")

    def __init__(self, depth=0):
        self.id = fresh_id()
        self.depth = depth


class NZero(Node):
    __slots__ = ()


class NSym(Node):
    """uninterpreted bytes"""
    __slots__ = ("f", "name")

    def __init__(self, name):
        super().__init__()
        self.name = name
        self.f = z3.Function(f"{name}!{self.id}", BV64, BV8)


class NConst(Node):
    __slots__ = ("data",)

    def __init__(self, data):
        super().__init__()
        self.data = data


class NStore(Node):
    """size bytes of val stored at off"""
    __slots__ = ("off", "size", "val", "prev")

    def __init__(self, off, size, val, prev):
        super().__init__(prev.depth + 1)
        self.off, self.size, self.val, self.prev = off, size, val, prev


class NCopy(Node):
    """len bytes from src node at soff placed at off"""
    __slots__ = ("off", "len", "src", "soff", "prev")

    def __init__(self, off, len_, src, soff, prev):
        super().__init__(max(prev.depth, src.depth) + 1)
        self.off, self.len, self.src, self.soff, self.prev = off, len_, src, soff, prev


class NSet(Node):
    __slots__ = ("off", "len", "byte", "prev")

    def __init__(self, off, len_, byte, prev):
        super().__init__(prev.depth + 1)
        self.off, self.len, self.byte, self.prev = off, len_, byte, prev
