"""Loop cutting: a loop whose trip count depends on symbolic data is replaced, at its header, by an
inductive invariant inferred by Houdini (candidate conjuncts are dropped until the rest is implied by the
entry state and preserved by every path through the body).  The body is then verified once from an
arbitrary state that satisfies the invariant, and execution continues from its exits.

Header states are partitioned by *shape* (which object every modified pointer points to); objects
allocated inside the loop become summary objects of that shape."""
import z3
from mem import *
import execu
from execu import State, PathEnd, Budget, NeedCut, tob

MAXSHAPES = 12
CONTENT = {'watch', 'fact', 'same', 'rest', 'fold', 'foldo', 'foldf'}

class Ctx:
    def __init__(self, st, f, h, body, parent):
        self.uid = f.uid; self.h = h; self.body = body; self.nframes = len(st.frames); self.parent = parent
        self.back = []; self.exits = []
    def is_target(self, st, f, h): return f.uid == self.uid and h == self.h
    def edge(self, ex, st, f, frm, to):
        """called at the start of every control transfer; records back edges and exits"""
        if f.uid == self.uid:
            if to == self.h and frm in self.body:
                blk = f.fn.blocks[to]
                vals = []
                for I in blk.phis:
                    v = ex.ev(st, f, I.x[frm])
                    vals.append(ex.undef(I.ty) if v is None else v)
                for I, v in zip(blk.phis, vals): f.regs[I.id] = v
                f.prev = frm; f.bb = to; f.ip = blk.nphi
                self.back.append(st)
                raise PathEnd('backedge')
            if to not in self.body:
                st.ghost['pend'] = to
                self.exits.append(st)
                raise PathEnd('exit')
        elif len(st.frames) < self.nframes:
            st.ghost['pend'] = to
            self.exits.append(st)
            raise PathEnd('exit')
    def popped(self, ex, st):
        if len(st.frames) < self.nframes:
            self.exits.append(st)
            raise PathEnd('exit')

_fv = {}
def free_vars(t):
    """names of the uninterpreted constants in a term"""
    if isinstance(t, int) or t is None: return frozenset()
    i = t.get_id()
    r = _fv.get(i)
    if r is not None: return r[1]
    out = set(); todo = [t]; seen = set()
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen: continue
        seen.add(k)
        c = x.children()
        if not c:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        else: todo.extend(c)
    r = frozenset(out)
    if len(_fv) > 200000: _fv.clear()
    _fv[i] = (t, r)
    return r

class Mods:
    """locations the loop body may modify"""
    def __init__(self):
        self.cells = {}     # (obj, off) -> n
        self.arrs = {}      # obj -> set of cell offsets certainly disjoint from every symbolic write (None = not yet)
        self.freed = set()
        self.ver = 0
    def cell(self, o, off, n):
        cur = self.cells.get((o, off))
        if cur is not None and cur >= n: return
        if cur is None:
            for (ob, of), m in list(self.cells.items()):
                if ob == o and of <= off and off + n <= of + m: return
        self.cells[(o, off)] = n; self.ver += 1

class Logger:
    """receives every write made while a loop body is explored (ex.wlog)"""
    def __init__(self, ex, base, mods):
        self.ex = ex; self.base = base; self.mods = mods; self.st = None; self.stores = []; self.parent = ex.wlog
        self.offs = []
    def append(self, rec, st=None):
        oid, off, n = rec
        if self.parent is not None: self.parent.append(rec, st)
        if oid not in self.base.mem: return
        if self.ex.silentlog: return
        m = self.mods
        if isinstance(off, int) and isinstance(n, int) and n <= 64:
            m.cell(oid, off, n); return
        if not isinstance(off, int): self.offs.append((oid, off))
        o0 = self.base.mem[oid]
        keep = m.arrs.get(oid)
        if keep is None:
            keep = set(o0.cells); new = True
        else: new = False
        st = st or self.st
        drop = set()
        for c in keep:
            w = o0.cells[c][0]
            o_, n_ = tz(off, 64), tz(n, 64)
            ok = simpb(z3.And(z3.ULE(o_, o_ + n_), z3.Or(z3.UGE(o_, BV(c + w, 64)), z3.ULE(o_ + n_, BV(c, 64)))))
            if ok is True: continue
            if ok is False or st is None or not self.ex.must(st, ok, 1000): drop.add(c)
        if new or drop:
            m.arrs[oid] = keep - drop; m.ver += 1
    def free(self, oid):
        if self.parent is not None: self.parent.free(oid)
        if oid in self.base.mem and oid not in self.mods.freed and not self.ex.silentlog:
            self.mods.freed.add(oid); self.mods.ver += 1

class Var:
    __slots__ = ('key', 'term', 'w', 'x0', 'isptr', 'obj')

def getloc(ex, E, loc, uid_idx):
    if loc[0] == 'phi': return E.frames[uid_idx].regs[loc[1]]
    o = E.mem[loc[1]]
    c = o.cells.get(loc[2])
    if c is not None and c[0] == loc[3]: return c[1]
    return ex.rd(E, o, loc[2], loc[3])

class Shape:
    pass

class Cutter:
    def __init__(self, ex, st, f, h, body):
        self.ex = ex; self.S0 = st; self.h = h; self.body = body; self.fi = len(st.frames) - 1
        self.blk = f.fn.blocks[h]
        self.mods = Mods()
        self.cmps = {}       # candidate bound terms found in comparisons
        self.limits = {}     # store-offset terms as functions of the loop variables
        self.deltas = {}     # var key -> set of constant steps seen
        self.shapes = {}
        self.svmemo = {}

    # ------------------------------------------------------------ modified locations
    def locs(self):
        r = [('phi', I.id) for I in self.blk.phis]
        for (o, off), n in sorted(self.mods.cells.items()):
            a = self.mods.arrs.get(o)
            if a is not None and off not in self.S0.mem[o].cells: continue      # part of a havocked array
            if a is not None and off not in a: continue
            r.append(('cell', o, off, n))
        return r

    # ------------------------------------------------------------ shapes
    def describe(self, E):
        """(key, plan): plan lists how to build the header state for this shape"""
        S0 = self.S0
        news = {}
        key = []
        order = []
        def val(v, path):
            if isinstance(v, Ptr):
                if v.obj == 0: return ('null',) if isinstance(v.off, int) and v.off == 0 else ('i',)
                o = E.mem.get(v.obj)
                if o is None: return ('dead',)
                if o.func is not None or (o.kind == 'global' and o.name.startswith('_ZTV')):
                    if isinstance(v.off, int): return ('k', v.obj, v.off)
                if v.obj in S0.mem: return ('p', v.obj)
                if not o.live: return ('dead',)
                if v.obj not in news:
                    if len(news) > 24: raise Unsupported('loop allocates an unbounded structure')
                    news[v.obj] = len(news)
                    order.append(v.obj)
                return ('n', news[v.obj])
            if isinstance(v, list): return ('l',) + tuple(val(x, path) for x in v)
            if isinstance(v, z3.BoolRef): return ('b',)
            return ('i',)
        for loc in self.L:
            key.append((loc,) + val(getloc(self.ex, E, loc, self.fi), loc))
        i = 0
        while i < len(order):
            o = E.mem[order[i]]
            ks = []
            for off in sorted(o.cells):
                n, v = o.cells[off]
                if isinstance(v, Ptr) or (isinstance(o.size, int) and o.size <= 256 and o.chain is None):
                    ks.append((off, n) + val(v, None))
            key.append(('new', i, o.kind, o.size if isinstance(o.size, int) and o.size <= 256 else 'sym', tuple(ks)))
            i += 1
        for o in sorted(self.mods.freed):
            key.append(('live', o, E.mem[o].live))
        return tuple(key), order

    def build(self, shp):
        """a fresh arbitrary header state of this shape; returns (state, values)"""
        ex = self.ex
        st = self.S0.clone()
        # cloning must not disturb S0
        if 'pend' in st.ghost: st.ghost.pop('pend')
        f = st.frames[self.fi]
        vals = {}
        newobj = {}
        subs = {}
        for name, fn, lf, sub in getattr(shp, 'cands', ()):
            if sub is not None:
                old = subs.get(sub[0])
                if old is None or (old[0] is not None and sub[1] is None): subs[sub[0]] = (sub[1], sub[2])
        j = ex.fresh('iter', 64); vals[('j',)] = j
        ex.assume(st, z3.ULT(j, BV(1 << 42, 64)))
        own = {'iter': j}
        pending = {}
        def value(path, w, busy=()):
            if path in vals: return vals[path]
            s = subs.get(path)
            if s is not None and path not in busy:
                if s[0] is not None and s[0] not in vals: value(s[0], w, busy + (path,))
                if s[0] is None or s[0] in vals:
                    t = s[1](vals); t = z3.simplify(t)
                    vals[path] = t; return t
            t = ex.fresh_bool('lb') if w == 1 else ex.fresh('lv', w)
            vals[path] = t
            return t
        def cv(t): return simp(t) if isinstance(t, z3.BitVecRef) else (1 if z3.is_true(t) else 0 if z3.is_false(t) else t)
        def mk(k, v, path, w):
            """fresh value of the kind described; v is the template value"""
            if k[0] == 'null': return NULL
            if k[0] == 'dead': return Ptr(0, 1)
            if k[0] == 'k': return Ptr(k[1], k[2])
            if k[0] == 'p':
                return Ptr(k[1], cv(value(path, 64)))
            if k[0] == 'n':
                return Ptr(newobj[k[1]].id, cv(value(path, 64)))
            if k[0] == 'l': return [mk(kk, None, path + (i,), w) for i, kk in enumerate(k[1:])]
            if k[0] == 'b': return cv(value(path, 1))
            return cv(value(path, w))
        # summary objects first
        for k in shp.key:
            if k[0] == 'new':
                _, i, kind, size, ks = k
                o = ex.new_obj(st, 0, kind, 'loop', 16)
                if size == 'sym':
                    t = value(('osize', i), 64)
                    o.size = cv(t)
                    ex.next_base += 1 << 40
                    ex.assume(st, z3.ULE(t, BV(1 << 40, 64)))
                else:
                    o.size = size; ex.next_base += size + 4096
                o.init = ('arr', ex.fresh_arr('oc'))
                newobj[i] = o
        for a, keep in self.mods.arrs.items():
            o = ex.wobj(st, a)
            cells = {c: o.cells[c] for c in keep if c in o.cells}
            o.cells = cells; o.chain = None; o.init = ('arr', ex.fresh_arr('la'))
        for k in shp.key:
            if k[0] == 'new':
                o = newobj[k[1]]
                for ks in k[4]:
                    off, n = ks[0], ks[1]
                    v = mk(ks[2:], None, ('ncell', k[1], off), 8 * n)
                    o.cells[off] = (n, v)
                    if isinstance(v, Ptr): o.hasptr = True
            elif k[0] == 'live':
                if not k[2]:
                    o = ex.wobj(st, k[1]); o.live = False; o.cells = {}; o.chain = None; o.init = ('zero',)
            else:
                loc = k[0]
                if loc[0] == 'phi':
                    ty = self.phity[loc[1]]
                    w = 1 if ty.kind == 'int' and ty.width == 1 else (ty.width if ty.kind in ('int', 'float') else 64)
                    kk = k[1:]
                    if w == 1 and kk[0] == 'i': kk = ('b',)
                    f.regs[loc[1]] = mk(kk, None, (loc,), w)
                else:
                    o = ex.wobj(st, loc[1])
                    if not o.live: continue
                    v = mk(k[1:], None, (loc,), 8 * loc[3])
                    if loc[2] in o.cells and o.cells[loc[2]][0] == loc[3]: o.cells[loc[2]] = (loc[3], v)
                    else:
                        ex.clear_cells(st, o, loc[2], loc[3]); o.cells[loc[2]] = (loc[3], v)
                    if isinstance(v, Ptr): o.hasptr = True
        st.ghost['havoc'] = True
        st.weak = list(st.weak) + ['loop']
        return st, vals, {i: o.id for i, o in newobj.items()}

    def extract(self, E, shp, order):
        """values of the loop variables of this shape in edge state E"""
        ex = self.ex
        vals = {}
        def put(k, v, path, w):
            if k[0] in ('null', 'k', 'dead'): return
            if k[0] in ('p', 'n'): vals[path] = tz(v.off, 64); return
            if k[0] == 'l':
                for i, kk in enumerate(k[1:]): put(kk, v[i], path + (i,), w)
                return
            if k[0] == 'b': vals[path] = tob(v); return
            v = ex.iv(E, v, w)
            vals[path] = tob(v) if isinstance(v, z3.BoolRef) and w == 1 else tz(v, w)
        for k in shp.key:
            if k[0] == 'new':
                o = E.mem[order[k[1]]]
                if k[3] == 'sym': vals[('osize', k[1])] = tz(o.size, 64)
                for ks in k[4]:
                    put(ks[2:], o.cells[ks[0]][1], ('ncell', k[1], ks[0]), 8 * ks[1])
            elif k[0] == 'live': pass
            else:
                loc = k[0]
                v = getloc(ex, E, loc, self.fi)
                if loc[0] == 'phi':
                    ty = self.phity[loc[1]]
                    w = ty.width if ty.kind in ('int', 'float') else 64
                    kk = k[1:]
                    if w == 1 and kk[0] == 'i': kk = ('b',)
                    put(kk, v, (loc,), w)
                else:
                    if not E.mem[loc[1]].live: continue
                    put(k[1:], v, (loc,), 8 * loc[3])
        return vals

    # ------------------------------------------------------------ candidates
    def candidates(self, shp, vals, E, omap):
        """list of (name, fn(vals, reader)) candidate conjuncts for a shape; vals are the values at the first edge"""
        ex = self.ex; S0 = self.S0
        C = []
        ints = [p for p in vals if p != ('j',) and isinstance(vals[p], z3.BitVecRef)]
        bools = [p for p in vals if isinstance(vals[p], z3.BoolRef)]
        j0 = vals[('j',)]
        x0 = {p: simp(vals[p]) if isinstance(vals[p], z3.BitVecRef) else vals[p] for p in vals}
        e0 = dict(x0)
        for p, v in self.entry_vals.items():
            if p in e0: e0[p] = simp(v) if isinstance(v, z3.BitVecRef) else v
        def add(name, fn, lf=None, sub=None): C.append((name, fn, lf, sub))
        stable = self.stable
        # equality with the entry value
        for p in ints:
            w = vals[p].size()
            for src in (e0[p], x0[p]):
                if stable(src):
                    add(('eq', p, str(src)[:40]), (lambda p, t: lambda V, R: V[p] == t)(p, tz(src, w)), None, (p, None, (lambda t: lambda V: t)(tz(src, w))))
        for p in bools:
            if stable(e0[p]) if not isinstance(e0[p], int) else True:
                add(('beq', p), (lambda p, t: lambda V, R: V[p] == t)(p, tob(e0[p])), None, (p, None, (lambda t: lambda V: t)(tob(e0[p]))))
            add(('bt', p), (lambda p: lambda V, R: V[p])(p)); add(('bf', p), (lambda p: lambda V, R: z3.Not(V[p]))(p))
        # constant steps of the ghost iteration counter
        for p in ints:
            for d in self.deltas.get(p, ()):
                if d and stable(e0[p]):
                    w = vals[p].size()
                    lt = (lambda t, d, w: lambda V: t + BV(d & mask(w), w) * (V[('j',)] if w == 64 else z3.Extract(w - 1, 0, V[('j',)]) if w < 64 else z3.ZeroExt(w - 64, V[('j',)])))(tz(e0[p], w), d, w)
                    add(('lin', p, d), (lambda p, lt: lambda V, R: V[p] == lt(V))(p, lt), None, (p, None, lt))
        # constant differences, orders between loop variables
        i64 = [p for p in ints if vals[p].size() in (32, 64)]
        if len(i64) <= 24:
            for a in range(len(i64)):
                for b in range(a + 1, len(i64)):
                    p, q = i64[a], i64[b]
                    if vals[p].size() != vals[q].size(): continue
                    if stable(e0[p]) and stable(e0[q]):
                        d = simp(tz(e0[p], vals[p].size()) - tz(e0[q], vals[p].size()))
                        add(('diff', p, q), (lambda p, q, d: lambda V, R: V[p] - V[q] == d)(p, q, tz(d, vals[p].size())), None, (q, p, (lambda p, d: lambda V: V[p] - d)(p, tz(d, vals[p].size()))))
                        d = simp(tz(e0[p], vals[p].size()) + tz(e0[q], vals[p].size()))
                        add(('sum', p, q), (lambda p, q, d: lambda V, R: V[p] + V[q] == d)(p, q, tz(d, vals[p].size())), None, (q, p, (lambda p, d: lambda V: d - V[p])(p, tz(d, vals[p].size()))))
                    add(('ule', p, q), (lambda p, q: lambda V, R: z3.ULE(V[p], V[q]))(p, q))
                    add(('uge', p, q), (lambda p, q: lambda V, R: z3.UGE(V[p], V[q]))(p, q))
                    if len(i64) <= 10:
                        add(('ult', p, q), (lambda p, q: lambda V, R: z3.ULT(V[p], V[q]))(p, q))
                        add(('ugt', p, q), (lambda p, q: lambda V, R: z3.UGT(V[p], V[q]))(p, q))
        # bounds
        terms = {}
        def term(t, w):
            if isinstance(t, int): terms[(w, t & mask(w))] = t & mask(w)
            else:
                t = z3.simplify(t)
                if stable(t): terms[(w, t.get_id())] = t
        for (w, _), t in list(self.cmps.items()): term(t, w)
        for t in S0.terms: term(t, 64)
        for p in ints: term(e0[p], vals[p].size())
        for k in shp.key:
            if k[0] in ('new', 'live'): continue
            if k[1] == 'p': term(S0.mem[k[1 + 1]].size, 64)
        steps = sorted({abs(d) for s in self.deltas.values() for d in s if d and abs(d) < 64})
        lst = list(terms.items())
        if len(lst) > 60: lst = lst[:60]
        for p in ints:
            w = vals[p].size()
            if w < 8: continue
            for (tw, _), t in lst:
                if tw != w: continue
                T = tz(t, w)
                add(('ule', p, str(t)[:40]), (lambda p, T: lambda V, R: z3.ULE(V[p], T))(p, T))
                add(('uge', p, str(t)[:40]), (lambda p, T: lambda V, R: z3.UGE(V[p], T))(p, T))
                if not isinstance(t, int) or t < 70000: add(('ult', p, str(t)[:40]), (lambda p, T: lambda V, R: z3.ULT(V[p], T))(p, T))
                for s in steps:
                    if s > 1 and not isinstance(t, int): add(('ule+', p, str(t)[:40], s), (lambda p, T, w: lambda V, R: z3.And(z3.ULE(V[p], T), z3.ULE(T, BV(mask(w) >> 1, w))))(p, T + BV(s - 1, w), w))
                if w <= 32:
                    add(('sle', p, str(t)[:40]), (lambda p, T: lambda V, R: V[p] <= T)(p, T))
                    add(('sge', p, str(t)[:40]), (lambda p, T: lambda V, R: V[p] >= T)(p, T))
            # offsets stay inside their object
            vs = self.sizeof(shp, p)
            if vs is not None:
                if vs[0] == 'c': add(('inobj', p), (lambda p, T: lambda V, R: z3.ULE(V[p], T))(p, tz(vs[1], 64)))
                else: add(('inobj', p), (lambda p, q: lambda V, R: z3.ULE(V[p], V[q]))(p, vs[1]))
        # small value sets
        for p in ints:
            s = self.consts.get(p)
            if s and len(s) <= 8 and None not in s:
                w = vals[p].size()
                add(('in', p), (lambda p, s, w: lambda V, R: z3.Or(*[V[p] == BV(c, w) for c in s]))(p, sorted(s), w))
        # ghost-index facts
        if S0.watch or S0.facts or S0.terms or S0.folds:
            lim = {}; seenlim = set()
            jj = z3.BitVec('@j', 64)
            dummy = {}
            for i, p in enumerate(sorted(vals, key=str)):
                if p == ('j',): dummy[p] = jj; continue
                if not isinstance(vals[p], z3.BitVecRef): dummy[p] = z3.Bool('@%d' % i); continue
                w = vals[p].size(); d = self.deltas.get(p, ())
                if w == 64 and len(d) == 1 and stable(e0[p]): dummy[p] = tz(e0[p], 64) + BV(list(d)[0] & mask(64), 64) * jj
                elif w == 64 and not d and stable(e0[p]) and isinstance(e0[p], int): dummy[p] = tz(e0[p], 64)
                else: dummy[p] = z3.BitVec('@%d' % i, w)
            # loop variables the store offsets are made of (up to a constant)
            offvars = {}
            for n, (oid, t, hv) in self.limits.items():
                ps = [(v, dummy[q]) for q, v in hv.items() if q in dummy and z3.is_const(v) and v.sort() == dummy[q].sort()]
                td = z3.substitute(t, *ps)
                for q in ints:
                    if vals[q].size() != 64: continue
                    df = td - dummy[q]
                    if z3.is_bv_value(z3.simplify(dummy[q])): continue
                    if z3.is_bv_value(z3.simplify(df)): ok = True
                    else:
                        cs = [z3.simplify(z3.substitute(df, (jj, BV(c, 64)))) for c in (0, 1, 5, 1000)]
                        ok = all(z3.is_bv_value(c) for c in cs) and len({c.as_long() for c in cs}) == 1
                    if ok: offvars.setdefault(oid, set()).add(q)
            alloff = set().union(*offvars.values()) if offvars else set()
            pref = [p for p in ints if p in alloff] + [p for p in ints if p not in alloff]
            keys = {}
            def limit(name, fn, p):
                t = z3.simplify(fn(dummy))
                if z3.is_bv_value(t): return
                t = str(t)
                if t in seenlim: return
                seenlim.add(t); lim[name] = fn; keys[name] = p
            for p in pref:
                if vals[p].size() != 64: continue
                ds = self.deltas.get(p, ())
                up = any(d > 0 for d in ds) or not ds; down = any(d < 0 for d in ds)
                if up: limit(('v', p), (lambda p: lambda V: V[p])(p), p)
                if stable(e0[p]) and not (isinstance(e0[p], int) and e0[p] == 0):
                    if up: limit(('d', p), (lambda p, t: lambda V: V[p] - t)(p, tz(e0[p], 64)), p)
                    if down: limit(('r', p), (lambda p, t: lambda V: t - V[p])(p, tz(e0[p], 64)), p)
            # limits for array contents: only those made of store offsets, when there are any
            if ex.debugloops: print('   offvars', offvars, [str(t)[:80] for _, t, _ in self.limits.values()])
            def alims(oid):
                ov = offvars.get(oid)
                r = {n: f for n, f in lim.items() if ov and keys[n] in ov}
                return r or lim
            arrs = []
            for a in self.mods.arrs: arrs.append(('pre', a))
            for k in shp.key:
                if k[0] == 'new' and (k[3] == 'sym' or k[3] > 8): arrs.append(('new', k[1]))
            bases = {}
            for a in arrs:
                bs = {0: 0}
                for p in ints:
                    kk = self.ptrkind(shp, p)
                    if kk is None: continue
                    if a[0] == 'pre' and kk == ('p', a[1]) and stable(e0[p]): bs[str(e0[p])] = e0[p]
                if a[0] == 'pre':
                    for n, (oid, t, hv) in self.limits.items():
                        if oid == a[1]:
                            ps = [(v, p) for p, v in hv.items() if isinstance(v, z3.BitVecRef)]
                            b = simp(z3.substitute(t, *[(v, tz(e0[p], v.size())) for v, p in ps if p in e0]))
                            if stable(b): bs[str(b)] = b
                bases[a] = list(bs.values())[:4]
            wl = {}
            for k, v in S0.watch[:12]: wl.setdefault((str(k), str(v)), (k, v))
            for k, v in list(wl.values())[:6]:
                K = tz(k, 64); v8 = BV(v & 255, 8) if isinstance(v, int) else z3.Extract(7, 0, v) if v.size() > 8 else v
                for a in arrs:
                    for b in bases[a]:
                        for ln, lf in alims(a[1] if a[0] == 'pre' else None).items():
                            add(('watch', a, str(b)[:20], ln), (lambda a, b, lf, K, v8: lambda V, R: z3.Implies(z3.ULT(K, lf(V)), tz(R(a, add64(b, simp(K))), 8) == v8))(a, b, lf, K, v8), (K, lf))
            for k, v in S0.facts[:12]:
                K = tz(k, 64); B = tob(v)
                for ln, lf in lim.items():
                    add(('fact', str(k)[:20], ln), (lambda lf, K, B: lambda V, R: z3.Implies(z3.ULT(K, lf(V)), B))(lf, K, B), (K, lf))
            # frames of rewritten arrays at the ghost indexes
            gi = {}
            for t in list(S0.terms) + [k for k, v in S0.watch]:
                gi[str(t)] = t
            for t in list(gi.values())[:6] if ex.o.get('rest') else []:
                T = tz(t, 64)
                for a in self.mods.arrs:
                    for b in bases[('pre', a)]:
                        idx = add64(b, simp(T))
                        old = tz(ex.rd(S0, S0.mem[a], idx, 1), 8)
                        add(('same', a, str(t)[:20]), (lambda a, idx, old: lambda V, R: tz(R(('pre', a), idx), 8) == old)(a, idx, old))
                        for ln, lf in alims(a).items():
                            add(('rest', a, str(t)[:20], ln), (lambda a, idx, old, T, lf: lambda V, R: z3.Implies(z3.UGE(T, lf(V)), tz(R(('pre', a), idx), 8) == old))(a, idx, old, T, lf))
            # folds
            for fo in S0.folds:
                for ln, lf in lim.items():
                    add(('foldf', ln), (lambda fo, lf: lambda V, R: fo.flag(lf(V)) == BV(0, 64))(fo, lf), lf)
                for p in ints:
                    w = vals[p].size()
                    if w > 64: continue
                    for ln, lf in lim.items():
                        add(('fold', p, ln), (lambda p, fo, lf, w: lambda V, R: V[p] == (z3.Extract(w - 1, 0, fo.at(lf(V))) if w < 64 else fo.at(lf(V))))(p, fo, lf, w), lf)
                        add(('foldo', p, ln), (lambda p, fo, lf, w: lambda V, R: (z3.ZeroExt(64 - w, V[p]) if w < 64 else V[p]) == fo.at(lf(V)))(p, fo, lf, w), lf)
        return C

    def ptrkind(self, shp, p):
        if len(p) >= 1 and isinstance(p[0], tuple):
            for k in shp.key:
                if k[0] == p[0] and k[0] not in ('new', 'live'):
                    return k[1:3] if k[1] in ('p', 'n') else None
        if p and p[0] == 'ncell':
            for k in shp.key:
                if k[0] == 'new' and k[1] == p[1]:
                    for ks in k[4]:
                        if ks[0] == p[2]: return ks[2:4] if ks[2] in ('p', 'n') else None
        return None
    def sizeof(self, shp, p):
        k = self.ptrkind(shp, p)
        if k is None: return None
        if k[0] == 'p': return ('c', self.S0.mem[k[1]].size)
        for kk in shp.key:
            if kk[0] == 'new' and kk[1] == k[1]:
                return ('v', ('osize', k[1])) if kk[3] == 'sym' else ('c', kk[3])
        return None

    # ------------------------------------------------------------ exploring the body
    def reader(self, E, omap):
        ex = self.ex
        def R(a, idx):
            o = E.mem[a[1]] if a[0] == 'pre' else E.mem[omap[a[1]]]
            return ex.rd(E, o, idx, 1)
        return R

    def explore(self, st):
        ex = self.ex
        f = st.frames[self.fi]
        ctx = Ctx(st, f, self.h, self.body, st.cutctx)
        st.cutctx = ctx
        f.lc[self.h] = (0, st.nfork, 0)
        saveq = ex.queue; savee = (ex.replay, ex.taken)
        ex.queue = [st]
        done = []
        try:
            while ex.queue:
                s = ex.queue.pop()
                if ex.wlog is not None: ex.wlog.st = s
                try:
                    r = ex.run_path(s)
                except Unsupported:
                    if ex.mute and self.phase == 'discover': continue
                    raise
                if r is not None:
                    done.append(r)
        finally:
            ex.queue = saveq; ex.replay, ex.taken = savee
        return ctx, done

    def split_check(self, pc, t, K, L0, L1):
        """pc implies t, where t constrains index K below the limit: the part below the old limit L0 (settled by
        earlier iterations) and the part added by this iteration are separate queries"""
        ex = self.ex
        r = ex.sol.check(pc, [z3.Not(t), z3.ULT(K, L0)], 4000)
        if r != 'unsat': return r
        new = [z3.Not(t), z3.UGE(K, L0), z3.ULT(K, L1)]
        xy = self.same_var(pc, K, L0, L1)
        if xy is not None:
            x, y = xy
            cs = [z3.simplify(z3.substitute(c, (x, y))) for c in list(pc) + new]
            cs = [c for c in cs if not z3.is_true(c)]
            if any(z3.is_false(c) for c in cs): return 'unsat'
            if ex.sol.local(cs[:-len(new)] if len(cs) > len(new) else [], cs[-len(new):] if len(cs) > len(new) else cs): return 'unsat'
            r = ex.sol.plain(cs, 3000)
            if r == 'unsat': return r
        return ex.sol.check(pc, new, 4000)
    def same_var(self, pc, K, L0, L1):
        """variables x of K, y of L0 with K = c x + k1, L0 = c y + k2, such that the new part means x == y"""
        key = (K.get_id(), L0.get_id(), L1.get_id(), len(pc), pc[-1].get_id() if pc else 0)
        if key in self.svmemo: return self.svmemo[key][0]
        res = None
        def vs(t):
            out = []; todo = [t]; seen = set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if not x.children():
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
                else: todo.extend(x.children())
            return out
        def lin(t, x):
            a = [z3.simplify(z3.substitute(t, (x, BV(c, 64)))) for c in (0, 1, 2, 1001)]
            if not all(z3.is_bv_value(v) for v in a): return None
            a = [v.as_long() for v in a]
            c = (a[1] - a[0]) & mask(64)
            if (a[2] - a[1]) & mask(64) != c or (a[3] - a[0]) & mask(64) != (c * 1001) & mask(64): return None
            return c, a[0]
        xs, ys = vs(K), vs(L0)
        if len(xs) == 1 and len(ys) == 1 and xs[0].sort() == ys[0].sort() and xs[0].size() == 64 and not xs[0].eq(ys[0]):
            lk, ll = lin(K, xs[0]), lin(L0, ys[0])
            if lk and ll and lk[0] == ll[0]:
                x, y = xs[0], ys[0]
                if self.ex.sol.check(pc, [z3.UGE(K, L0), z3.ULT(K, L1), x != y], 3000) == 'unsat': res = (x, y)
        self.svmemo[key] = (res, K, L0, L1, pc[-1] if pc else None)
        return res
    def filter(self, shp, vals, E, omap, hvals=None):
        """drop the candidates that do not hold on this edge; True when some were dropped"""
        ex = self.ex
        R = self.reader(E, omap)
        todo = []
        n0 = len(shp.cands)
        keep = []
        for c in shp.cands:
            try: t = c[1](vals, R)
            except (KeyError, z3.Z3Exception): continue
            t = simpb(t)
            if t is True: keep.append(c); continue
            if t is False: continue
            todo.append((c, t))
        # numeric conjuncts together (models drop many at once), content conjuncts one by one
        pc = E.pc
        content = [(c, t) for c, t in todo if c[0][0] in CONTENT]
        todo = [(c, t) for c, t in todo if c[0][0] not in CONTENT]
        while todo:
            r = ex.sol.check(pc, [z3.Not(z3.And(*[t for _, t in todo])) if len(todo) > 1 else z3.Not(todo[0][1])], 1500)
            if r == 'unsat': keep += [c for c, _ in todo]; break
            m = ex.sol.model
            nt = []
            if r == 'sat' and m is not None:
                for c, t in todo:
                    if not z3.is_false(m.eval(t, model_completion=True)): nt.append((c, t))
            if r != 'sat' or m is None or len(nt) == len(todo):
                # one by one
                for c, t in todo:
                    if ex.sol.check(pc, [z3.Not(t)], 800) == 'unsat': keep.append(c)
                nt = []
            todo = nt
        while content:
            c, t = content.pop(0)
            r = None
            if hvals is not None and c[2] is not None and c[0][0] in ('watch', 'fact'):
                try:
                    K, lf = c[2]
                    r = self.split_check(pc, t, K, lf(hvals), lf(vals))
                except KeyError: r = None
            if r is None: r = ex.sol.check(pc, [z3.Not(t)], 4000)
            if r == 'unsat': keep.append(c); continue
            m = ex.sol.model
            if ex.debugloops and r == 'unknown': print('   unknown', c[0])
            if r == 'sat' and m is not None:
                content = [(c, t) for c, t in content if not z3.is_false(m.eval(t, model_completion=True))]
        ids = {id(c) for c in keep}
        shp.cands = [c for c in shp.cands if id(c) in ids]
        return len(shp.cands) < n0

    def add_edge(self, E, j, hvals=None):
        ex = self.ex
        key, order = self.describe(E)
        shp = self.shapes.get(key)
        omap = {i: o for i, o in enumerate(order)}
        if shp is None:
            if len(self.shapes) >= MAXSHAPES: raise Unsupported('too many loop shapes')
            shp = Shape(); shp.key = key; shp.dirty = True
            vals = self.extract(E, shp, order); vals[('j',)] = j
            shp.cands = self.candidates(shp, vals, E, omap)
            shp.n0 = len(shp.cands)
            shp.held = []
            if self.level == 0:
                shp.held = [c for c in shp.cands if c[0][0] in CONTENT]
                shp.cands = [c for c in shp.cands if c[0][0] not in CONTENT]
                if E is self.S0: self.first.append((shp, E, vals, omap))
            self.shapes[key] = shp
            self.filter(shp, vals, E, omap)
            shp.dirty = True
        else:
            vals = self.extract(E, shp, order); vals[('j',)] = j
            if self.filter(shp, vals, E, omap, hvals): shp.dirty = True
        for p, v in vals.items():
            if isinstance(v, z3.BitVecRef):
                c = simp(v)
                s = self.newconsts.setdefault(p, set())
                s.add(c if isinstance(c, int) else None)
        return vals

    def header(self, shp):
        ex = self.ex
        H, vals, omap = self.build(shp)
        self.hvars |= set()
        self.curvals = vals
        R = self.reader(H, omap)
        for name, fn, lf, sub in shp.cands:
            t = simpb(fn(vals, R))
            if t is True: continue
            if t is False: return None
            H.pc.append(t)
        for fo in H.folds:
            seen = set()
            for name, fn, lf, sub in shp.cands:
                if name[0] in ('fold', 'foldo', 'foldf'):
                    e = simp(lf(vals))
                    if str(e) not in seen:
                        seen.add(str(e)); fo.instantiate(ex, H, e)
        H.model = None
        if ex.sol.check(H.pc, [], 2000) == 'unsat': return None
        return H

    def run(self):
        ex = self.ex; S0 = self.S0
        f = S0.frames[self.fi]
        self.phity = {I.id: I.ty for I in self.blk.phis}
        savewlog = ex.wlog; savecmp = ex.cmplog
        self.hvars = set()
        self.consts = {}; self.newconsts = {}
        self.phase = 'discover'
        ex.mute += 1
        try:
            # ---- first iteration, exactly from the entry state: what is modified, by which steps
            ex.wlog = Logger(ex, S0, self.mods); ex.cmplog = {}
            s = S0.clone()
            ctx, done = self.explore(s)
            self.L = self.locs()
            self.take_cmps()
            ent = self.entry()
            for E in ctx.back: self.note_deltas(ent, E)
            for attempt in range(14):
                ver = self.mods.ver
                self.L = self.locs()
                self.shapes = {}
                nd = (sum(len(s) for s in self.deltas.values()), len(self.cmps), len(self.limits))
                self.entry_vals = self.entry()
                self.first = []; self.level = 0
                self.add_edge(S0, BV(0, 64))
                self.phase = 'houdini'
                ok = True
                rounds = 0
                self.level = 0
                while ok:
                    d = next((s for s in self.shapes.values() if s.dirty), None)
                    if d is None:
                        if self.level == 0 and any(s.held for s in self.shapes.values()):
                            # numeric part is stable: now the facts about contents
                            nd2 = (sum(len(s) for s in self.deltas.values()), len(self.cmps), len(self.limits))
                            nc = {p: s for p, s in self.newconsts.items() if None not in s}
                            if (nd2 != nd or nc != self.consts) and attempt <= 5: break
                            self.level = 1
                            for s in self.shapes.values():
                                s.cands = s.cands + s.held; s.held = []; s.dirty = True
                            for shp, E, vals, omap in self.first: self.filter(shp, vals, E, omap)
                            continue
                        break
                    rounds += 1
                    if rounds > 80: raise Unsupported('loop invariant inference does not converge')
                    d.dirty = False
                    H = self.header(d)
                    if H is None: continue
                    j = self.curvals[('j',)]
                    hv = dict(self.curvals)
                    ex.wlog.offs = []
                    ctx, done = self.explore(H)
                    if self.mods.ver != ver: ok = False; break
                    names = {v.decl().name(): p for p, v in hv.items() if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED}
                    hvc = {p: v for p, v in hv.items() if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED}
                    for oid, off in ex.wlog.offs:
                        off = z3.simplify(off)
                        fv = self.newvars(off)
                        if fv and all(n in names for n in fv):
                            k = (oid, str(z3.substitute(off, *[(v, z3.BitVec('@' + str(p), v.size())) for p, v in hvc.items() if isinstance(v, z3.BitVecRef)])))
                            if k not in self.limits and len(self.limits) < 12: self.limits[k] = (oid, off, hvc)
                    self.take_cmps()
                    self.hv = hv
                    for E in ctx.back:
                        self.note_deltas(hv, E)
                        self.add_edge(E, j + BV(1, 64), hv)
                if not ok: continue
                nd2 = (sum(len(s) for s in self.deltas.values()), len(self.cmps), len(self.limits))
                nc = {p: s for p, s in self.newconsts.items() if None not in s}
                grew = nd2 != nd or nc != self.consts
                self.consts = nc
                if not grew or attempt > 5: break
                self.newconsts = {}
            else:
                raise Unsupported('loop modifies an unbounded set of locations')
            if ex.debugloops:
                print('LOOP', f.fn.dem[:60], 'bb', self.h, 'shapes', len(self.shapes), 'mods', len(self.mods.cells), list(self.mods.arrs), 'attempts', attempt + 1)
                for s in self.shapes.values():
                    print('   shape', [k[1:] if k[0] not in ('new', 'live') else k for k in s.key], 'cands', s.n0, '->', len(s.cands))
                    for n, _, _, _ in s.cands: print('      ', n)
        finally:
            ex.mute -= 1
            ex.wlog = savewlog; ex.cmplog = savecmp
        # ---- the inductive invariant is known: verify the body once, continue from the exits
        self.phase = 'final'
        ex.wlog = Logger(ex, S0, self.mods)
        nex = 0
        try:
            for s in self.shapes.values():
                H = self.header(s)
                if H is None: continue
                outer = S0.cutctx
                ctx, done = self.explore(H)
                for e in ctx.exits:
                    e.cutctx = outer
                    ex.queue.append(e); nex += 1
                for e in done:
                    e.cutctx = outer
                    ex.queue.append(e); nex += 1
        finally:
            w = ex.wlog; ex.wlog = savewlog
            if savewlog is not None:
                pass
        ex.cutinfo[(f.fn.dem, self.h)] = dict(shapes=len(self.shapes), invariants=sum(len(s.cands) for s in self.shapes.values()))
        raise PathEnd('cut')

    def stable(self, t):
        return isinstance(t, int) or self.newvars(t) == set()
    def newvars(self, t):
        """variables of t created since the loop was reached"""
        return {n for n in free_vars(t) if '!' in n and int(n.rsplit('!', 1)[1]) > self.fresh0}

    def entry(self):
        """entry values of the loop variables, for locations that exist at entry"""
        key, order = self.describe(self.S0)
        shp = Shape(); shp.key = key
        return self.extract(self.S0, shp, order)

    def note_deltas(self, before, E):
        key, order = self.describe(E)
        shp = Shape(); shp.key = key
        after = self.extract(E, shp, order)
        for p, v in after.items():
            b = before.get(p)
            if b is None or not isinstance(v, z3.BitVecRef): continue
            if v.size() != b.size(): continue
            d = simp(v - b)
            if isinstance(d, int):
                w = v.size()
                if d >> (w - 1): d -= 1 << w
                if d and abs(d) <= 4096: self.deltas.setdefault(p, set()).add(d)

    def take_cmps(self):
        for k, t in self.ex.cmplog.items():
            if k in self.cmps: continue
            if not self.stable(t): continue
            if len(self.cmps) < 60: self.cmps[k] = t
        self.ex.cmplog.clear()

def cut(ex, st, f, h, body):
    c = Cutter(ex, st, f, h, body)
    c.fresh0 = ex.fresh_n
    c.run()
