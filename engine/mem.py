"""Values and memory objects of the symbolic executor."""
import z3
BV = z3.BitVecVal
M64 = (1 << 64) - 1

def mask(w): return (1 << w) - 1

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj; self.off = off
    def __repr__(self): return f'Ptr({self.obj}+{self.off})'

NULL = Ptr(0, 0)

def simp(t):
    if isinstance(t, int): return t
    t = z3.simplify(t)
    if z3.is_bv_value(t): return t.as_long()
    return t

def simpb(t):
    if t is True or t is False: return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t

def tz(v, w):
    """int or BitVec -> BitVec of width w"""
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v

def add64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & M64
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return simp(tz(a, 64) + tz(b, 64))

def sub64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & M64
    if isinstance(b, int) and b == 0: return a
    return simp(tz(a, 64) - tz(b, 64))

class Snap:
    __slots__ = ('cells', 'chain', 'init')
    def __init__(self, cells, chain, init):
        self.cells = cells; self.chain = chain; self.init = init

class Obj:
    __slots__ = ('id', 'size', 'base', 'kind', 'live', 'ro', 'cells', 'chain', 'init', 'name', 'func', 'owner', 'hasptr', 'born')
    def clone(self, owner):
        o = Obj()
        o.id = self.id; o.size = self.size; o.base = self.base; o.kind = self.kind; o.live = self.live; o.ro = self.ro
        o.cells = dict(self.cells); o.chain = self.chain; o.init = self.init; o.name = self.name; o.func = self.func
        o.owner = owner; o.hasptr = self.hasptr; o.born = self.born
        return o
    def snap(self):
        return Snap(dict(self.cells), self.chain, self.init)

class Unsupported(Exception):
    pass

def byte_of(val, i, nb):
    """i-th (little endian) byte of a stored integer value of nb bytes"""
    if isinstance(val, int): return (val >> (8 * i)) & 255
    if nb == 1: return val if val.size() == 8 else z3.Extract(7, 0, val)
    return simp(z3.Extract(8 * i + 7, 8 * i, val))

def join_bytes(bs):
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs): r |= b << (8 * i)
        return r
    if len(bs) == 1: return bs[0]
    return simp(z3.Concat(*[tz(b, 8) for b in reversed(bs)]))

def mux(idx, table):
    """balanced selection of table[idx] (idx: BitVec, table: dict int->byte)"""
    keys = sorted(table)
    if len(keys) == 1: return tz(table[keys[0]], 8)
    vals = set()
    # all identical?
    first = table[keys[0]]
    if isinstance(first, int) and all(isinstance(table[k], int) and table[k] == first for k in keys): return BV(first, 8)
    # runs of affine constants:  b = k + c  (cheap for alphabet tables)
    if all(isinstance(table[k], int) for k in keys):
        d = (table[keys[0]] - keys[0]) & 255
        if all(((table[k] - k) & 255) == d for k in keys):
            return z3.Extract(7, 0, idx) + BV(d, 8)
    # split where best: try to keep runs together
    mid = len(keys) // 2
    if all(isinstance(table[k], int) for k in keys):
        # choose a run boundary closest to the middle
        bnd = [i for i in range(1, len(keys)) if not (table[keys[i]] == table[keys[i-1]] or ((table[keys[i]] - keys[i]) & 255) == ((table[keys[i-1]] - keys[i-1]) & 255))]
        if bnd: mid = min(bnd, key=lambda i: abs(i - len(keys) // 2))
    lo = {k: table[k] for k in keys[:mid]}; hi = {k: table[k] for k in keys[mid:]}
    return z3.If(z3.ULT(idx, BV(keys[mid], 64)), mux(idx, lo), mux(idx, hi))
