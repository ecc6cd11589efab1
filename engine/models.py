"""Models of the externals (C/C++ runtime) and of the harness intrinsics (vf_*)."""
import z3
from mem import *
import execu
from execu import SKIP, tob, simpb1, sgn

M63 = (1 << 63) - 1

def cstring(ex, st, p, limit=400):
    o = st.mem[p.obj]; r = []
    off = p.off
    for i in range(limit):
        b = ex.rd(st, o, off + i, 1)
        if not isinstance(b, int): raise Unsupported('symbolic C string')
        if b == 0: break
        r.append(chr(b))
    return ''.join(r)

def instub(ex, st):
    if not ex.contracts: return False
    return any(g.fn in ex.stubset for g in st.frames)

def record(ex, st, kind, name, term, extra=None):
    if st.cutctx is not None or instub(ex, st):
        st.ghost['havoc'] = True
        if instub(ex, st): return
    st.inputs.append((kind, name, term, extra))

# ---------------------------------------------------------------- harness intrinsics
def mk_int(w):
    def m(ex, st, f, I, a):
        n = cstring(ex, st, a[0])
        if w == 1:
            v = ex.fresh_bool(n)
        else:
            v = ex.fresh(n, w)
        record(ex, st, 'u', n, v, w)
        return v
    return m
def vf_size(ex, st, f, I, a):
    n = cstring(ex, st, a[0]); v = ex.fresh(n, 64)
    mx = a[1]
    cap = ex.o.get("sizecap")
    if cap is not None and isinstance(mx, int) and mx > cap: mx = cap
    record(ex, st, 'size', n, v, mx)
    ex.assume(st, simpb(z3.ULE(v, tz(mx, 64))))
    return v
def vf_bytes(ex, st, f, I, a):
    n = cstring(ex, st, a[0])
    arr = ex.fresh_arr(n)
    o = ex.new_obj(st, a[1], 'heap', n, 1, ('arr', arr), symbase=True)
    record(ex, st, 'bytes', n, arr, a[1])
    return Ptr(o.id, 0)
def vf_map(ex, st, f, I, a):
    """n bytes, byte i being F(raw_i, i) for arbitrary raw_i: an input constrained byte by byte"""
    n = cstring(ex, st, a[0])
    arr = ex.fresh_arr(n)
    F = st.mem[a[2].obj].func
    o = ex.new_obj(st, a[1], 'heap', n, 1, ('fn', arr, F), symbase=True)
    record(ex, st, 'bytes', n, arr, a[1])
    return Ptr(o.id, 0)
def vf_assume(ex, st, f, I, a):
    c = tob(a[0]); c = simpb(c)
    if c is True: return None
    if c is False: raise execu.PathEnd('assume')
    ex.assume(st, c)
    if st.model is None:
        ok, m = ex.feasible(st, z3.BoolVal(True))
        if not ok: raise execu.PathEnd('assume')
        st.model = m
    return None
def vf_assert(ex, st, f, I, a):
    lab = cstring(ex, st, a[1])
    ex.prove(st, simpb(tob(a[0])), 'assert', lab)
    return None
def vf_reach(ex, st, f, I, a):
    lab = cstring(ex, st, a[0])
    if ex.reached.get(lab): return None
    if st.model is None:
        r = ex.sol.check(st.pc, [], 5000, strong=True)
        if r == 'sat': st.model = ex.sol.model
        elif r == 'unsat': raise execu.PathEnd('infeasible')
        else: return None
    ex.reached[lab] = True
    return None
def vf_fact(ex, st, f, I, a):
    st.facts.append((a[0], a[1])); return None
def vf_watch(ex, st, f, I, a):
    st.watch.append((a[0], a[1])); return None
def vf_term(ex, st, f, I, a):
    st.terms.append(a[0]); return None
def vf_note(ex, st, f, I, a):
    print('NOTE', cstring(ex, st, a[0]), a[1] if len(a) > 1 else '', flush=True); return None
def vf_noloop(ex, st, f, I, a): return None
def vf_pure(ex, st, f, I, a):
    F = st.mem[a[0].obj].func
    return simp(tz(ex.pure(F, list(a[1:]), 64, st), 64))
class Fold:
    """a(0) = a0, a(i+1) = step(a(i), b(i), byte i); b: a flag that stays set once it is set (checked)"""
    def __init__(self, ex, st, buf, n, a0, b0, fa, fb):
        self.ex = ex; self.buf = buf; self.n = n; self.fa = fa; self.fb = fb
        i = ex.fresh_n; ex.fresh_n += 1
        S = z3.BitVecSort(64)
        self.A = z3.Function('fold_a!%d' % i, S, S); self.B = z3.Function('fold_b!%d' % i, S, S)
        z = BV(0, 64)
        ex.assume(st, self.A(z) == tz(a0, 64)); ex.assume(st, self.B(z) == tz(b0, 64))
        # the flag is monotonic
        x = ex.fresh('acc', 64); y = ex.fresh('byte', 64); w = ex.fresh('flag', 64)
        ex.prove(st, simpb(z3.Implies(w != 0, tz(ex.pure(fb, [x, w, y, 0], 64, st), 64) != 0)), 'spec', 'the flag of a fold stays set')
        self.done = set()
        n_ = tz(n, 64)
        ex.assume(st, z3.Implies(self.B(z) != 0, self.B(n_) != 0))
    def at(self, t): return self.A(tz(t, 64))
    def flag(self, t): return self.B(tz(t, 64))
    def instantiate(self, ex, st, e):
        """the recurrence from e to e + 1 (when e < n)"""
        o = st.mem[self.buf.obj]
        i = tz(e, 64); n = tz(self.n, 64)
        b = ex.rd(st, o, add64(self.buf.off, e), 1)
        b = b if isinstance(b, int) else z3.ZeroExt(56, tz(b, 8))
        a, f = self.A(i), self.B(i)
        inb = z3.ULT(i, n)
        j = tz(add64(e, 1), 64)
        st.pc.append(z3.Implies(inb, z3.And(self.A(j) == tz(ex.pure(self.fa, [a, f, b, 0], 64, st), 64), self.B(j) == tz(ex.pure(self.fb, [a, f, b, 0], 64, st), 64), z3.Implies(self.B(j) != 0, self.B(n) != 0))))
        st.pc.append(z3.Implies(z3.And(z3.ULE(i, n), self.B(i) != 0), self.B(n) != 0))
def vf_fold(ex, st, f, I, a):
    buf, n, a0, b0, fa, fb, pb = a
    fo = Fold(ex, st, ex.to_ptr(st, buf), n, a0, b0, st.mem[fa.obj].func, st.mem[fb.obj].func)
    st.folds.append(fo)
    for i in range(3): fo.instantiate(ex, st, i)
    if isinstance(n, int):
        for i in range(3, min(n, 64)): fo.instantiate(ex, st, i)
    ex.store(st, ex.to_ptr(st, pb), mkintty(64), fo.flag(n))
    st.model = None
    return fo.at(n)
def vf_concrete(ex, st, f, I, a):
    """case split on all values of a small integer (callers bound it)"""
    v = a[0]
    if isinstance(v, int): return v
    return ex.conc_val(st, v)
def vf_havoc(ex, st, f, I, a):
    """contract stubs: n bytes at p become arbitrary"""
    p = ex.to_ptr(st, a[0]); n = a[1]
    if isinstance(n, int) and n == 0: return None
    o = ex.access(st, p, n, 'havoc', True)
    o = ex.wobj(st, p.obj)
    sn = Snap({}, None, ('arr', ex.fresh_arr('havoc')))
    if o.cells: o.chain = ('K', o.cells, o.chain); o.cells = {}
    o.chain = ('C', p.off, n, sn, 0, o.chain)
    if ex.wlog is not None: ex.wlog.append((o.id, p.off, n), st)
    return None
def vf_drop(ex, st, f, I, a):
    """contract stubs: the object p points into ceases to exist"""
    p = ex.to_ptr(st, a[0])
    if p.obj == 0: return None
    o = ex.wobj(st, p.obj); o.live = False; o.cells = {}; o.chain = None; o.init = ('zero',)
    if ex.wlog is not None: ex.wlog.free(p.obj)
    return None
def vf_readable(ex, st, f, I, a):
    p = ex.to_ptr(st, a[0]); ex.access(st, p, a[1], 'readable'); return None
def vf_writable(ex, st, f, I, a):
    p = ex.to_ptr(st, a[0]); ex.access(st, p, a[1], 'writable', True); return None
def vf_inside(ex, st, f, I, a):
    """does [p,p+n) lie inside the live object q points into?"""
    p = ex.to_ptr(st, a[0]); q = ex.to_ptr(st, a[2]); n = a[1]
    if p.obj != q.obj or p.obj == 0: return 0
    o = st.mem[p.obj]
    if not o.live: return 0
    s_, o_, n_ = tz(o.size, 64), tz(p.off, 64), tz(n, 64)
    return simpb1(z3.And(z3.ULE(o_, s_), z3.ULE(n_, s_ - o_)))
def vf_valid(ex, st, f, I, a):
    """is [p,p+n) inside some live object? (no obligation)"""
    try: p = ex.to_ptr(st, a[0])
    except Unsupported: return 0
    n = a[1]
    if p.obj == 0: return simpb1(tz(n, 64) == BV(0, 64))
    o = st.mem[p.obj]
    if not o.live: return simpb1(tz(n, 64) == BV(0, 64))
    s_, o_, n_ = tz(o.size, 64), tz(p.off, 64), tz(n, 64)
    return simpb1(z3.And(z3.ULE(o_, s_), z3.ULE(n_, s_ - o_)))
def vf_sameobj(ex, st, f, I, a):
    p = ex.to_ptr(st, a[0]); q = ex.to_ptr(st, a[1])
    return 1 if p.obj == q.obj and p.obj else 0
def vf_live(ex, st, f, I, a):
    p = ex.to_ptr(st, a[0])
    return 1 if p.obj and st.mem[p.obj].live else 0
def vf_nobjs(ex, st, f, I, a):
    """number of live heap objects (leak checks)"""
    return sum(1 for o in st.mem.values() if o.live and o.kind == 'heap')

# ---------------------------------------------------------------- memory
def new(ex, st, f, I, a):
    n = a[0]
    big = (n > (1 << 40)) if isinstance(n, int) else simpb(z3.UGT(n, BV(1 << 40, 64)))
    if ex.decide(st, big):
        throw_std(ex, st, '_ZTISt9bad_alloc'); return SKIP
    o = ex.new_obj(st, n, 'heap', 'new', 16)
    o.init = ('arr', ex.fresh_arr('heap'))
    return Ptr(o.id, 0)
def delete(ex, st, f, I, a):
    p = ex.to_ptr(st, a[0])
    if p.obj == 0: return None
    o = st.mem[p.obj]
    ok = o.kind == 'heap' and o.live
    if not ok: ex.prove(st, False, 'delete', 'deletes a live heap block')
    ex.prove(st, simpb(tz(p.off, 64) == BV(0, 64)), 'delete', 'deletes the start of a block')
    o = ex.wobj(st, p.obj); o.live = False; o.cells = {}; o.chain = None; o.init = ('zero',)
    if ex.wlog is not None: ex.wlog.free(p.obj)
    return None
def memcpy(ex, st, f, I, a):
    ex.memcpy(st, a[0], a[1], a[2]); return a[0]
def memmove(ex, st, f, I, a):
    ex.memcpy(st, a[0], a[1], a[2], True); return a[0]
def memset(ex, st, f, I, a):
    b = a[1]
    if isinstance(b, int): b &= 255
    elif b.size() > 8: b = simp(z3.Extract(7, 0, b))
    ex.memset(st, a[0], b, a[2]); return a[0]
def memcmp(ex, st, f, I, a):
    n = a[2]
    if isinstance(n, int) and n == 0: return 0
    p, q = ex.to_ptr(st, a[0]), ex.to_ptr(st, a[1])
    if not isinstance(n, int):
        n = ex.small_val(st, n, 24)
        if isinstance(n, int) and n == 0: return 0
    if not isinstance(n, int):
        if ex.decide(st, n == BV(0, 64)): return 0
    o1 = ex.access(st, p, n, 'memcmp'); o2 = ex.access(st, q, n, 'memcmp')
    if isinstance(n, int) and n <= 256:
        r = BV(0, 32)
        allc = True
        xs = [(ex.rd(st, o1, add64(p.off, i), 1), ex.rd(st, o2, add64(q.off, i), 1)) for i in range(n)]
        for x, y in xs:
            if not (isinstance(x, int) and isinstance(y, int)): allc = False
        if allc:
            for x, y in xs:
                if x != y: return (1 if x > y else (1 << 32) - 1)
            return 0
        for x, y in reversed(xs):
            x, y = tz(x, 8), tz(y, 8)
            r = z3.If(x == y, r, z3.If(z3.ULT(x, y), BV((1 << 32) - 1, 32), BV(1, 32)))
        return simp(r)
    r = ex.fresh('memcmp', 32); w = ex.fresh('memcmpw', 64)
    n_ = tz(n, 64)
    s1, s2 = o1.snap(), o2.snap()
    if ex.decide(st, r == BV(0, 32)):
        for g in st.terms:
            if isinstance(g, tuple): continue
            ok = z3.ULT(tz(g, 64), n_)
            x = ex.rd(st, s1, add64(p.off, g), 1); y = ex.rd(st, s2, add64(q.off, g), 1)
            ex.assume(st, simpb(z3.Implies(ok, tz(x, 8) == tz(y, 8))))
        st.univ.append((n, s1, p.off, s2, q.off))
        return 0
    ex.assume(st, r != BV(0, 32)); ex.assume(st, z3.ULT(w, n_))
    x = ex.rd(st, s1, add64(p.off, w), 1); y = ex.rd(st, s2, add64(q.off, w), 1)
    ex.assume(st, simpb(tz(x, 8) != tz(y, 8)))
    return r
def strlen(ex, st, f, I, a):
    p = ex.to_ptr(st, a[0])
    for i in range(600):
        q = Ptr(p.obj, add64(p.off, i))
        o = ex.access(st, q, 1, 'strlen')
        b = ex.rd(st, o, q.off, 1)
        if isinstance(b, int):
            if b == 0: return i
            continue
        if ex.decide(st, b == BV(0, 8)): return i
    raise Unsupported('strlen')
def memchr(ex, st, f, I, a):
    p = ex.to_ptr(st, a[0]); n = a[2]
    if not isinstance(n, int): raise Unsupported('memchr')
    c = a[1]
    c = c & 255 if isinstance(c, int) else simp(z3.Extract(7, 0, c))
    for i in range(n):
        q = Ptr(p.obj, add64(p.off, i))
        o = ex.access(st, q, 1, 'memchr')
        b = ex.rd(st, o, q.off, 1)
        if ex.decide(st, simpb(tz(b, 8) == tz(c, 8))): return q
    return NULL

# ---------------------------------------------------------------- C++ runtime
def throw_std(ex, st, ti):
    o = ex.new_obj(st, 64, 'exc', ti)
    o.init = ('zero',)
    st.excinfo[o.id] = ti
    ex.throw(st, Ptr(o.id, 0), ti)
def thrower(ti):
    def m(ex, st, f, I, a):
        throw_std(ex, st, ti); return SKIP
    return m
def cxa_alloc(ex, st, f, I, a):
    o = ex.new_obj(st, a[0], 'exc', 'exception'); o.init = ('arr', ex.fresh_arr('exc'))
    return Ptr(o.id, 0)
def cxa_free(ex, st, f, I, a): return None
def cxa_throw(ex, st, f, I, a):
    p = a[0]; t = a[1]
    ti = st.mem[t.obj].name
    st.excinfo[p.obj] = ti
    ex.throw(st, p, ti); return SKIP
def begin_catch(ex, st, f, I, a):
    st.caught.append(a[0])
    if st.excinfo[a[0].obj].startswith('_ZTIP'):      # a pointer is caught by value, as a pointer to the base asked for
        p = ex.load(st, a[0], I.ty); adj = st.ghost.get('ptradj', 0)
        return Ptr(p.obj, p.off + adj) if adj else p
    return a[0]
def end_catch(ex, st, f, I, a):
    if st.caught: st.caught.pop()
    return None
def rethrow(ex, st, f, I, a):
    p = st.caught[-1]
    ex.throw(st, p, st.excinfo[p.obj]); return SKIP
def terminate(ex, st, f, I, a):
    ex.prove(st, False, 'terminate', 'std::terminate is not reached'); return None
def nop(ex, st, f, I, a): return 0 if I.ty.kind == 'int' else (NULL if I.ty.kind == 'ptr' else None)
def guard_acquire(ex, st, f, I, a):
    o = st.mem[a[0].obj]
    v = ex.rd(st, o, a[0].off, 1)
    if isinstance(v, int): return 0 if v else 1
    raise Unsupported('guard')
def guard_release(ex, st, f, I, a):
    o = ex.wobj(st, a[0].obj); ex.write(st, o, a[0].off, 1, 1); return None
def list_hook(ex, st, f, I, a):
    this, pos = a
    T = PT
    prev = ex.load(st, Ptr(pos.obj, add64(pos.off, 8)), T)
    ex.store(st, this, T, pos); ex.store(st, Ptr(this.obj, add64(this.off, 8)), T, prev)
    ex.store(st, prev, T, this); ex.store(st, Ptr(pos.obj, add64(pos.off, 8)), T, this)
    return None
def list_unhook(ex, st, f, I, a):
    this = a[0]; T = PT
    nx = ex.load(st, this, T); pv = ex.load(st, Ptr(this.obj, add64(this.off, 8)), T)
    ex.store(st, pv, T, nx); ex.store(st, Ptr(nx.obj, add64(nx.off, 8)), T, pv)
    return None
def list_transfer(ex, st, f, I, a):
    this, first, last = a; T = PT
    if this.obj == last.obj and this.off == last.off: return None
    nxt = lambda p: p
    prv = lambda p: Ptr(p.obj, add64(p.off, 8))
    lp = ex.load(st, prv(last), T); fp = ex.load(st, prv(first), T); tp = ex.load(st, prv(this), T)
    ex.store(st, lp, T, this); ex.store(st, fp, T, last); ex.store(st, tp, T, first)
    ex.store(st, prv(this), T, lp); ex.store(st, prv(last), T, fp); ex.store(st, prv(first), T, tp)
    return None
def mkptrty():
    import llvmc
    T = llvmc.Ty(); T.kind = 'ptr'; T.width = 64; T.size = 8; T.align = 8; T.elems = None; T.offs = None; T.elem = None; T.n = 0; T.name = 'ptr'
    return T
def mkintty(w):
    T = mkptrty(); T.kind = 'int'; T.width = w; T.size = w // 8; T.align = w // 8; T.name = 'i%d' % w
    return T
PT = mkptrty()

# ---------------------------------------------------------------- llvm intrinsics
def ubsantrap(ex, st, f, I, a):
    ex.prove(st, False, 'trap', 'undefined arithmetic (sanitizer trap %s)' % (a[0] if a else '')); return None
def trap(ex, st, f, I, a):
    ex.prove(st, False, 'trap', 'trap is not reached'); return None
def l_assume(ex, st, f, I, a): return None
def l_expect(ex, st, f, I, a): return a[0]
def minmax(op):
    def m(ex, st, f, I, a):
        w = I.ty.width
        x, y = ex.iv(st, a[0], w), ex.iv(st, a[1], w)
        if isinstance(x, int) and isinstance(y, int):
            s = op[0] == 's'
            k = (lambda v: sgn(v, w)) if s else (lambda v: v)
            return (min if op[1:] == 'min' else max)(x, y, key=k)
        X, Y = tz(x, w), tz(y, w)
        lt = (X < Y) if op[0] == 's' else z3.ULT(X, Y)
        return simp(z3.If(lt, X, Y) if op[1:] == 'min' else z3.If(lt, Y, X))
    return m
def ovf(op):
    def m(ex, st, f, I, a):
        w = I.ty.elems[0].width
        x, y = ex.iv(st, a[0], w), ex.iv(st, a[1], w)
        s = op[0] == 's'; o = op[1:]
        if isinstance(x, int) and isinstance(y, int):
            X, Y = (sgn(x, w), sgn(y, w)) if s else (x, y)
            r = X + Y if o == 'add' else X - Y if o == 'sub' else X * Y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, mask(w))
            return [r & mask(w), 0 if lo <= r <= hi else 1]
        X, Y = tz(x, w), tz(y, w)
        if o == 'mul':
            e = 2 * w
            ext = (lambda v: z3.SignExt(w, v)) if s else (lambda v: z3.ZeroExt(w, v))
            R = ext(X) * ext(Y)
        else:
            e = w + 2
            ext = (lambda v: z3.SignExt(2, v)) if s else (lambda v: z3.ZeroExt(2, v))
            R = ext(X) + ext(Y) if o == 'add' else ext(X) - ext(Y)
        r = simp(z3.Extract(w - 1, 0, R))
        back = z3.SignExt(e - w, z3.Extract(w - 1, 0, R)) if s else z3.ZeroExt(e - w, z3.Extract(w - 1, 0, R))
        return [r, simpb1(back != R)]
    return m
def bswap(ex, st, f, I, a):
    w = I.ty.width; n = w // 8
    x = ex.iv(st, a[0], w)
    bs = [byte_of(x, i, n) for i in range(n)]
    return join_bytes(bs[::-1])
def ctlz(ex, st, f, I, a):
    w = I.ty.width; x = ex.iv(st, a[0], w)
    if isinstance(x, int): return w - x.bit_length()
    r = BV(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, x) == BV(1, 1), BV(w - 1 - i, w), r)
    return simp(r)
def cttz(ex, st, f, I, a):
    w = I.ty.width; x = ex.iv(st, a[0], w)
    if isinstance(x, int): return w if x == 0 else (x & -x).bit_length() - 1
    r = BV(w, w)
    for i in range(w - 1, -1, -1): r = z3.If(z3.Extract(i, i, x) == BV(1, 1), BV(i, w), r)
    return simp(r)
def fshl(left):
    def m(ex, st, f, I, a):
        w = I.ty.width
        x, y, s = (ex.iv(st, v, w) for v in a)
        if isinstance(s, int):
            s %= w
            if s == 0: return x if left else y
            k = s if left else w - s
            if isinstance(x, int) and isinstance(y, int): return ((x << k) | (y >> (w - k))) & mask(w)
            return simp((tz(x, w) << BV(k, w)) | z3.LShR(tz(y, w), BV(w - k, w)))
        s = z3.URem(s, BV(w, w))
        X = z3.Concat(tz(x, w), tz(y, w)); S = z3.ZeroExt(w, s)
        return simp(z3.Extract(2 * w - 1, w, X << S) if left else z3.Extract(w - 1, 0, z3.LShR(X, S)))
    return m
def l_abs(ex, st, f, I, a):
    w = I.ty.width; x = ex.iv(st, a[0], w)
    if isinstance(x, int): return abs(sgn(x, w)) & mask(w)
    return simp(z3.If(x < 0, -x, x))
def usat(op):
    def m(ex, st, f, I, a):
        w = I.ty.width; x, y = tz(ex.iv(st, a[0], w), w), tz(ex.iv(st, a[1], w), w)
        if op == 'sub': return simp(z3.If(z3.ULT(x, y), BV(0, w), x - y))
        return simp(z3.If(z3.ULT(x + y, x), BV(mask(w), w), x + y))
    return m
def fp1(fn):
    def m(ex, st, f, I, a):
        w = I.ty.width; x = ex.iv(st, a[0], w)
        return simp(fn(ex, x, w))
    return m
def l_fabs(ex, x, w): return x & (mask(w) >> 1)
def rnd(mode):
    def g(ex, x, w): return z3.fpToIEEEBV(z3.fpRoundToIntegral(mode, ex.fps(x, w)))
    return g
def is_constant(ex, st, f, I, a): return 0
def objsize(ex, st, f, I, a): return mask(I.ty.width)
def fpclass(ex, st, f, I, a):
    w = I.x['tys'][0].width; x = ex.iv(st, a[0], w); m = a[1]
    X = tz(x, w)
    eb, mb = (11, 52) if w == 64 else (8, 23)
    e = z3.Extract(w - 2, mb, X); mt = z3.Extract(mb - 1, 0, X); sg = z3.Extract(w - 1, w - 1, X) == BV(1, 1)
    e1 = e == BV(mask(eb), eb); e0 = e == BV(0, eb); m0 = mt == BV(0, mb)
    q = z3.Extract(mb - 1, mb - 1, mt) == BV(1, 1)
    cl = [z3.And(e1, z3.Not(m0), z3.Not(q)), z3.And(e1, z3.Not(m0), q), z3.And(e1, m0, sg), z3.And(z3.Not(e0), z3.Not(e1), sg), z3.And(e0, z3.Not(m0), sg), z3.And(e0, m0, sg),
          z3.And(e0, m0, z3.Not(sg)), z3.And(e0, z3.Not(m0), z3.Not(sg)), z3.And(z3.Not(e0), z3.Not(e1), z3.Not(sg)), z3.And(e1, m0, z3.Not(sg))]
    return simpb1(z3.Or(*[c for i, c in enumerate(cl) if m >> i & 1] or [z3.BoolVal(False)]))
def strtod_m(ex, st, f, I, a):
    ex.trusted.add('strtod: reads up to the first NUL inside the live buffer; returns an arbitrary double and an end inside the text')
    p = ex.to_ptr(st, a[0])
    # the text must be NUL-terminated inside its object
    o = st.mem[p.obj]; n = None
    if o.chain is not None and o.chain[0] == 'S' and o.chain[2] == 1 and isinstance(o.chain[3], int) and o.chain[3] == 0:
        # the most recent store is a terminator: strtod reads nothing behind it
        n = sub64(o.chain[1], p.off)
        ex.access(st, p, add64(n, 1), 'strtod')
        if not isinstance(n, int): ex.prove(st, simpb(z3.ULE(n, BV(1 << 62, 64))), 'bounds', 'text for strtod is terminated')
    if n is None: n = strlen(ex, st, f, I, [p])
    v = ex.fresh('strtod', 64); k = ex.fresh('strtodend', 64)
    ex.assume(st, z3.ULE(k, tz(n, 64)))
    e = a[1]
    if e.obj: ex.store(st, e, PT, Ptr(p.obj, add64(p.off, k)))
    st.ghost['strtod'] = v
    return v
def list_init_true(*a): return None

def install(ex):
    m = ex.models
    for n, w in (('vf_u64', 64), ('vf_u32', 32), ('vf_u16', 16), ('vf_u8', 8), ('vf_bool', 1), ('vf_f64', 64), ('vf_f32', 32)):
        m[n] = mk_int(w)
    g = globals()
    for n in ('vf_size', 'vf_bytes', 'vf_map', 'vf_assume', 'vf_assert', 'vf_reach', 'vf_fact', 'vf_watch', 'vf_term', 'vf_pure', 'vf_fold', 'vf_note', 'vf_concrete', 'vf_havoc',
              'vf_drop', 'vf_readable', 'vf_writable', 'vf_inside', 'vf_valid', 'vf_sameobj', 'vf_live', 'vf_nobjs'):
        m[n] = g[n]
    for n in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', 'malloc'): m[n] = new
    for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'): m[n] = delete
    m['memcpy'] = memcpy; m['memmove'] = memmove; m['memset'] = memset; m['memcmp'] = memcmp; m['bcmp'] = memcmp; m['strlen'] = strlen; m['memchr'] = memchr
    for n, t in (('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'), ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
                 ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
                 ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'), ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument')):
        m[n] = thrower(t)
    m['__cxa_allocate_exception'] = cxa_alloc; m['__cxa_free_exception'] = cxa_free; m['__cxa_throw'] = cxa_throw
    m['__cxa_begin_catch'] = begin_catch; m['__cxa_end_catch'] = end_catch; m['__cxa_rethrow'] = rethrow
    m['__cxa_guard_acquire'] = guard_acquire; m['__cxa_guard_release'] = guard_release; m['__cxa_guard_abort'] = nop; m['__cxa_atexit'] = nop
    m['_ZSt9terminatev'] = terminate; m['__clang_call_terminate'] = terminate; m['abort'] = terminate; m['__cxa_pure_virtual'] = terminate
    m['_ZNSt9exceptionD2Ev'] = nop; m['_ZNSt9exceptionD1Ev'] = nop; m['_ZNSt8ios_base4InitC1Ev'] = nop; m['_ZNSt8ios_base4InitD1Ev'] = nop
    m['_ZNSt8__detail15_List_node_base7_M_hookEPS0_'] = list_hook
    m['_ZNSt8__detail15_List_node_base9_M_unhookEv'] = list_unhook
    m['_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_'] = list_transfer
    m['strtod'] = strtod_m
    pm = []
    m['llvm.ubsantrap'] = ubsantrap; m['llvm.trap'] = trap; m['llvm.assume'] = l_assume
    for p, h in (('llvm.memcpy', memcpy), ('llvm.memmove', memmove), ('llvm.memset', memset), ('llvm.lifetime', nop), ('llvm.invariant', nop), ('llvm.prefetch', nop), ('llvm.va_', nop), ('llvm.dbg', nop), ('llvm.experimental.noalias', nop),
                 ('llvm.umin', minmax('umin')), ('llvm.umax', minmax('umax')), ('llvm.smin', minmax('smin')), ('llvm.smax', minmax('smax')),
                 ('llvm.uadd.with', ovf('uadd')), ('llvm.usub.with', ovf('usub')), ('llvm.umul.with', ovf('umul')),
                 ('llvm.sadd.with', ovf('sadd')), ('llvm.ssub.with', ovf('ssub')), ('llvm.smul.with', ovf('smul')),
                 ('llvm.bswap', bswap), ('llvm.ctlz', ctlz), ('llvm.cttz', cttz), ('llvm.fshl', fshl(True)), ('llvm.fshr', fshl(False)), ('llvm.abs', l_abs),
                 ('llvm.usub.sat', usat('sub')), ('llvm.uadd.sat', usat('add')), ('llvm.expect', l_expect), ('llvm.fabs', fp1(l_fabs)), ('fabs', fp1(l_fabs)),
                 ('llvm.floor', fp1(rnd(z3.RTN()))), ('llvm.ceil', fp1(rnd(z3.RTP()))), ('llvm.trunc', fp1(rnd(z3.RTZ()))), ('floor', fp1(rnd(z3.RTN()))), ('trunc', fp1(rnd(z3.RTZ()))), ('ceil', fp1(rnd(z3.RTP()))),
                 ('llvm.is.constant', is_constant), ('llvm.objectsize', objsize), ('llvm.is.fpclass', fpclass), ('llvm.launder', l_expect), ('llvm.strip', l_expect), ('llvm.stacksave', nop), ('llvm.stackrestore', nop), ('llvm.eh.typeid.for', None), ('llvm.ptrmask', None)):
        if h: pm.append((p, h))
    def eh_typeid(ex, st, f, I, a):
        return ex.typeid(st.mem[a[0].obj].name)
    pm.append(('llvm.eh.typeid.for', eh_typeid))
    ex.pmodels = pm
