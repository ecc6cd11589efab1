"""Symbolic executor / verification-condition generator for LLVM IR produced from the real sources.

Every path of a harness is executed over symbolic inputs; every memory access, arithmetic trap,
exception escape and vf_assert becomes an obligation  path-condition => condition  for the solver.
Loops whose trip count depends on symbolic data are cut at their header with inferred invariants
(see loops.py); all others are unrolled until the solver shows the exit is forced."""
import z3, struct, math, time, sys
from mem import *
from solver import Solver

BASE0 = 0x10000000
sys.setrecursionlimit(20000)

class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'ip', 'prev', 'call', 'allocas', 'lc', 'uid', 'onret')
    def copy(self):
        f = Frame()
        f.fn = self.fn; f.regs = list(self.regs); f.bb = self.bb; f.ip = self.ip; f.prev = self.prev; f.call = self.call
        f.allocas = list(self.allocas); f.lc = dict(self.lc); f.uid = self.uid; f.onret = self.onret
        return f

class State:
    _tok = 0
    __slots__ = ('frames', 'mem', 'pc', 'model', 'tok', 'nfork', 'caught', 'exc', 'inputs', 'facts', 'watch', 'terms', 'done', 'excinfo', 'depth', 'cutctx', 'steps', 'weak', 'folds', 'univ', 'ghost', 'outs')
    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.model = self.model
        State._tok += 2
        s.tok = State._tok; self.tok = State._tok + 1
        s.nfork = self.nfork; s.caught = list(self.caught); s.exc = self.exc; s.inputs = list(self.inputs)
        s.facts = list(self.facts); s.watch = list(self.watch); s.terms = list(self.terms); s.done = self.done
        s.excinfo = dict(self.excinfo); s.depth = self.depth; s.cutctx = self.cutctx; s.steps = self.steps; s.weak = self.weak
        s.folds = list(self.folds); s.univ = list(self.univ); s.ghost = dict(self.ghost); s.outs = list(self.outs)
        return s

class PathEnd(Exception):
    """current path is finished (status)"""
    def __init__(self, why): self.why = why

class Budget(Exception): pass
class NeedCut(Exception):
    def __init__(self, key): self.key = key

class Violation:
    def __init__(self, kind, label, loc, inputs, model, stack, weak, pc):
        self.kind = kind; self.label = label; self.loc = loc; self.inputs = inputs; self.model = model; self.stack = stack; self.weak = weak; self.pc = pc

class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(unroll=40, maxpaths=20000, time=600, cut=True, bounded=False, maxsteps=4000000)
        if opts: self.o.update(opts)
        self.sol = Solver()
        self.nid = 1
        self.fresh_n = 0
        self.next_base = BASE0
        self.globobj = {}
        self.funcobj = {}
        self.violations = []
        self.undischarged = []
        self.nobl = 0; self.ndis = 0; self.obl = {}
        self.reached = {}
        self.paths = 0
        self.notes = set()
        self.trusted = set()
        self.fnexec = set()
        self.tids = {}
        self.mute = 0
        self.cuts = set()
        self.cutinfo = {}
        self.uid = 0
        self.purememo = {}
        self.cmplog = None; self.silentlog = False; self.debugloops = False; self.divmemo = {}
        self.inpure = None       # inside a specification function: list of axioms, or False
        self.contracts = {}       # regex on demangled name -> stub function name
        self.contract_cache = {}; self.ptr_adj = 0
        self.stubset = set()
        self.start = time.time()
        self.deadline = self.start + self.o['time']
        self.sol.deadline = self.deadline
        self.models = {}
        import models
        models.install(self)
        self.optab = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}

    # ------------------------------------------------------------------ utilities
    def fresh(self, name, w):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)
    def fresh_bool(self, name):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (name, self.fresh_n))
    def fresh_arr(self, name):
        self.fresh_n += 1
        return z3.Array('%s!%d' % (name, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(8))

    def new_obj(self, st, size, kind, name='', align=16, init=None, symbase=False):
        o = Obj()
        self.nid += 1
        o.id = self.nid; o.size = size; o.kind = kind; o.live = True; o.ro = False; o.cells = {}; o.chain = None
        o.init = init if init is not None else ('arr', None)
        o.name = name; o.func = None; o.owner = st.tok; o.hasptr = False; o.born = st.nfork
        if symbase:
            b = self.fresh('base_' + name, 64); o.base = b
            self.assume(st, z3.And(z3.UGE(b, BV(0x1000, 64)), z3.ULE(b, BV(1 << 46, 64))))
        else:
            sz = size if isinstance(size, int) else (1 << 40)
            a = max(align, 16)
            self.next_base = (self.next_base + a - 1) // a * a
            o.base = self.next_base
            self.next_base += (sz + 4096)
        st.mem[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner != st.tok:
            o = o.clone(st.tok); st.mem[oid] = o
        return o

    def loc(self, st):
        for f in reversed(st.frames):
            if f.ip < len(f.fn.blocks[f.bb].insts):
                i = f.fn.blocks[f.bb].insts[f.ip]
                if i.line and '/harness/' not in i.file and 'c++' not in i.file:
                    return '%s:%d' % (i.file.split('/repo/')[-1], i.line)
        return '?'
    def stack(self, st):
        r = []
        for f in st.frames:
            b = f.fn.blocks[f.bb].insts
            i = b[f.ip] if f.ip < len(b) else b[-1]
            r.append('%s (%s:%d)' % (f.fn.dem[:160], i.file.split('/')[-1], i.line))
        return r

    # ------------------------------------------------------------------ solver level
    def assume(self, st, c):
        if c is True: return
        if c is False: raise PathEnd('infeasible')
        st.pc.append(c)
        if st.model is not None:
            if not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None

    def feasible(self, st, c):
        """is pc /\\ c satisfiable (unknown counts as yes); returns (bool, model)"""
        if c is False: return False, None
        if c is True: return True, st.model
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            return True, st.model
        r = self.sol.check(st.pc, [c], 2000)
        if r == 'sat': return True, self.sol.model
        if r == 'unsat': return False, None
        return True, None

    def must(self, st, c, timeout=1000):
        if c is True: return True
        if c is False: return False
        if st.model is not None and z3.is_false(st.model.eval(c, model_completion=True)): return False
        return self.sol.check(st.pc, [z3.Not(c)], timeout) == 'unsat'

    def prove(self, st, c, kind, label=''):
        """obligation: c holds on this path.  Afterwards c may be assumed."""
        if c is True or c is False: cc = c
        else: cc = simpb(c)
        loc = self.loc(st)
        key = (kind, label, loc if kind != 'assert' else '')
        if not self.mute:
            self.nobl += 1
            self.obl[key] = self.obl.get(key, 0) + 1
        if cc is True:
            if not self.mute: self.ndis += 1; self.sol.by['syntactic'] += 1
            return
        if self.mute:
            # invariant inference: obligations are discharged later from the inferred invariant; assume them here
            if cc is False: raise PathEnd('violated')
            self.assume(st, cc); return
        neg = True if cc is False else z3.Not(cc)
        if st.model is not None and cc is not False and z3.is_false(st.model.eval(cc, model_completion=True)):
            r = 'sat'; model = st.model
        elif cc is False and st.model is not None:
            r = 'sat'; model = st.model
        else:
            r = self.sol.check(st.pc, [neg] if neg is not True else [], 3000 if not self.mute else 1500, strong=not self.mute)
            model = self.sol.model
        if r == 'unsat':
            if not self.mute: self.ndis += 1; self.sol.by[self.sol.back] += 1
            if cc is False: raise PathEnd('infeasible')
            return
        if not self.mute:
            if r == 'sat':
                self.violations.append(Violation(kind, label, loc, list(st.inputs), model, self.stack(st), st.weak, list(st.pc) + ([neg] if neg is not True else [])))
            else:
                self.undischarged.append((kind, label, loc))
            if len(self.violations) >= self.o.get('maxviol', 6): raise Budget('violations')
        if cc is False: raise PathEnd('violated')
        ok, m = self.feasible(st, cc)
        if not ok: raise PathEnd('violated')
        st.model = m
        st.pc.append(cc)

    # ------------------------------------------------------------------ values
    def ev(self, st, f, op):
        k = op[0]
        if k == 'v': return f.regs[op[1]]
        if k == 'c': return op[1]
        if k == 'null': return NULL
        if k == 'g': return self.gptr(st, op[1], op[2])
        if k == 'u': return None
        if k == 'z': return 0
        if k == 'agg': return [self.ev(st, f, x) for x in op[1]]
        raise Unsupported('operand ' + str(op))

    def gptr(self, st, name, off):
        name = self.mod.alias.get(name, name)
        if name in self.globobj: return Ptr(self.globobj[name], off)
        if name in self.funcobj: return Ptr(self.funcobj[name], off)
        raise Unsupported('global ' + name)

    def undef(self, ty):
        if ty.kind in ('int', 'float'):
            return self.fresh_bool('undef') if ty.width == 1 else self.fresh('undef', ty.width)
        if ty.kind == 'ptr': return NULL
        if ty.kind == 'struct': return [self.undef(e) for e in ty.elems]
        if ty.kind in ('array', 'vector'): return [self.undef(ty.elem) for _ in range(ty.n)]
        return 0

    def iv(self, st, v, w):
        """integer view of a register value"""
        if isinstance(v, int): return v
        if v is None: return self.fresh_bool('undef') if w == 1 else self.fresh('undef', w)
        if isinstance(v, Ptr): return self.addr(st, v)
        if isinstance(v, list):   # vector as int
            return self.iv(st, join_bytes([b for x in v for b in self.to_bytes(st, x, w // 8 // len(v))]), w)
        return v

    def addr(self, st, p):
        if p.obj == 0: return p.off
        o = st.mem.get(p.obj)
        return add64(o.base, p.off)

    def to_ptr(self, st, v):
        if isinstance(v, Ptr): return v
        if v is None: return NULL
        if isinstance(v, int):
            if v == 0: return NULL
            for o in st.mem.values():
                if isinstance(o.base, int) and o.base <= v and (v - o.base) <= (o.size if isinstance(o.size, int) else 1 << 40):
                    return Ptr(o.id, v - o.base)
            return Ptr(0, v)
        # symbolic address: look for a symbolic base
        t = z3.simplify(v)
        for o in st.mem.values():
            if not isinstance(o.base, int):
                d = simp(t - o.base)
                if isinstance(d, int) or not mentions(d, o.base): return Ptr(o.id, d)
        # ite of pointers
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            return self.to_ptr(st, a if self.decide(st, c) else b)
        # symbolic offset into a concrete-base object: search by feasibility
        if st.model is not None or self.feasible(st, z3.BoolVal(True))[0]:
            m = st.model
            if m is None:
                if self.sol.check(st.pc, [], 3000) == 'sat': m = self.sol.model
            if m is not None:
                val = m.eval(t, model_completion=True).as_long()
                p = self.to_ptr(st, val)
                if p.obj:
                    o = st.mem[p.obj]
                    sz = o.size
                    inside = z3.ULE(t - BV(o.base, 64), tz(sz, 64))
                    if self.must(st, inside, 3000): return Ptr(p.obj, simp(t - BV(o.base, 64)))
                elif val == 0:
                    if self.decide(st, t == BV(0, 64)): return NULL
                    return self.to_ptr(st, v)
        raise Unsupported('symbolic address')

    def to_bytes(self, st, v, n):
        if isinstance(v, Ptr): v = self.addr(st, v)
        if v is None: v = self.fresh('undef', 8 * n)
        if isinstance(v, z3.BoolRef): v = tz(v, 8)
        if isinstance(v, list):
            m = n // len(v)
            return [b for x in v for b in self.to_bytes(st, x, m)]
        return [byte_of(v, i, n) for i in range(n)]

    # decide(): fork usable in the middle of an instruction. The sibling re-executes the instruction with
    # the recorded decisions replayed.
    def decide(self, st, c):
        if c is True or c is False: return c
        c = simpb(c)
        if c is True or c is False: return c
        if self.replay:
            return self.replay.pop(0)
        r = self.fork_mid(st, c)
        self.taken.append(r)
        return r

    def fork_mid(self, st, c):
        nc = z3.Not(c)
        t, mt = self.feasible(st, c)
        f, mf = self.feasible(st, nc)
        if t and f:
            st.nfork += 1
            # the sibling re-executes this instruction (nothing has been changed yet) and replays the decisions
            o = st.clone()
            o.pc.append(nc); o.model = mf
            o.exc = list(self.taken) + [False]
            self.queue.append(o)
            st.pc.append(c); st.model = mt
            return True
        if t:
            return True
        if f:
            return False
        raise PathEnd('infeasible')

    # ------------------------------------------------------------------ memory
    def read(self, st, o, off, n):
        """value of n bytes at off (int, BitVec or Ptr)"""
        return self.rd(st, o, off, n)

    def rd(self, st, s, off, n):
        if isinstance(off, int):
            c = s.cells.get(off)
            if c is not None and c[0] == n: return c[1]
            if not s.cells or not self.overlap(s.cells, off, n):
                return self.rd_chain(st, s.chain, s.init, off, n)
            # a wider cell containing the range?
            for b in range(off, off - 17, -1):
                c = s.cells.get(b)
                if c is not None:
                    if b + c[0] >= off + n:
                        v = c[1]
                        if isinstance(v, Ptr): v = self.addr(st, v)
                        if v is None: return self.fresh('undef', 8 * n)
                        d = off - b
                        if isinstance(v, int): return (v >> (8 * d)) & mask(8 * n)
                        if isinstance(v, z3.BoolRef): v = tz(v, 8)
                        return simp(z3.Extract(8 * (d + n) - 1, 8 * d, v))
                    break
        else:
            if not s.cells: return self.rd_chain(st, s.chain, s.init, off, n)
            if s.hasptr if isinstance(s, Obj) else False:
                pass
        bs = [self.rd_byte(st, s.cells, s.chain, s.init, add64(off, i)) for i in range(n)]
        return join_bytes(bs)

    def overlap(self, cells, off, n):
        for b in range(off - 16, off + n):
            c = cells.get(b)
            if c is not None and b + c[0] > off: return True
        return False

    def rd_chain(self, st, ch, init, off, n):
        while ch is not None:
            k = ch[0]
            if k == 'S':
                d = sub64(off, ch[1])
                if isinstance(d, int):
                    if d == 0 and ch[2] == n: return ch[3]
                    if d >= ch[2] and d <= (1 << 64) - n: ch = ch[4]; continue
                break
            if k == 'C' or k == 'F':
                dst, ln = ch[1], ch[2]
                d = sub64(off, dst)
                if isinstance(d, int) and isinstance(ln, int):
                    inside = d + n <= ln
                    outside = d >= ln and d <= (1 << 64) - n
                else:
                    dz, lz = tz(d, 64), tz(ln, 64)
                    inside = simpb(z3.And(z3.ULT(dz, lz), z3.ULE(BV(n, 64), lz - dz)))
                    if inside is not True:
                        outside = simpb(z3.And(z3.UGE(dz, lz), z3.ULE(dz, BV((1 << 64) - n, 64))))
                        if outside is not True and st is not None:
                            if self.must(st, inside): inside = True
                            elif self.must(st, outside): outside = True
                    else: outside = False
                if inside is True:
                    if k == 'F':
                        return join_bytes([ch[3]] * n)
                    return self.rd(st, ch[3], add64(ch[4], d), n)
                if outside is True:
                    ch = ch[-1]; continue
                break
            if k == 'K':
                return self.rd(st, Snap(ch[1], ch[2], init), off, n)
            break
        if ch is None:
            return self.rd_init(init, off, n)
        return join_bytes([self.rd_byte(st, None, ch, init, add64(off, i)) for i in range(n)])

    def rd_init(self, init, off, n):
        k = init[0]
        if k == 'zero': return 0
        if k == 'arr':
            a = init[1]
            if n == 1: return z3.Select(a, tz(off, 64))
            return z3.simplify(z3.Concat(*[z3.Select(a, tz(add64(off, i), 64)) for i in range(n - 1, -1, -1)]))
        if k == 'fn':
            if n == 1: return self.pure(init[2], [z3.Select(init[1], tz(off, 64)), off], 8)
            return join_bytes([self.rd_init(init, add64(off, i), 1) for i in range(n)])
        raise Unsupported('init ' + k)

    def pure(self, F, args, w, st0=None):
        """value of a specification function (no side effects) on symbolic arguments; definitions of quotients
        are added to st0 (plain division when there is none)"""
        key = (F.name, st0 is None) + tuple(a if isinstance(a, int) else ('t', a.get_id()) for a in args)
        r = self.purememo.get(key)
        if r is not None:
            if st0 is not None: self.add_axioms(st0, r[2])
            return r[0]
        st = State()
        st.frames = []; st.mem = dict(self.setupmem); st.pc = []; st.model = None; State._tok += 1; st.tok = State._tok
        st.nfork = 0; st.caught = []; st.exc = None; st.inputs = []; st.facts = []; st.watch = []; st.terms = []; st.done = None
        st.excinfo = {}; st.depth = 0; st.cutctx = None; st.steps = 0; st.weak = []; st.folds = []; st.univ = []; st.ghost = {}; st.outs = []
        save = (self.queue, self.replay, self.taken, self.wlog, self.cmplog, self.mute)
        self.queue = []; self.wlog = None; self.cmplog = None; self.mute = 1
        savep = self.inpure; ax = self.inpure = [] if st0 is not None else False
        try:
            self.push(st, F, args, None)
            outs = self.run_until_done([st])
        finally:
            self.inpure = savep
            self.queue, self.replay, self.taken, self.wlog, self.cmplog, self.mute = save
        res = None
        for o in outs:
            v = o.done[1]
            if w == 1: v = tob(v)
            else: v = tz(self.iv(o, v, w), w)
            res = v if res is None else z3.If(z3.And(*o.pc) if o.pc else z3.BoolVal(True), v, res)
        res = simp(res) if w > 1 else simpb1(res)
        self.purememo[key] = (res, args, ax)
        if st0 is not None: self.add_axioms(st0, ax)
        return res
    def add_axioms(self, st, ax):
        for c in ax:
            if isinstance(self.inpure, list): self.inpure.append(c)
            elif not any(d is c for d in st.pc):
                st.pc.append(c); st.model = None

    def rd_byte(self, st, cells, ch, init, off):
        if cells:
            if isinstance(off, int):
                for b in range(off, off - 17, -1):
                    c = cells.get(b)
                    if c is not None:
                        if b + c[0] > off: return self.to_bytes(st, c[1], c[0])[off - b]
                        break
            else:
                tab = {}
                for b, (n, v) in cells.items():
                    for i, x in enumerate(self.to_bytes(st, v, n)): tab[b + i] = x
                keys = sorted(tab)
                runs = []
                for k in keys:
                    if runs and runs[-1][1] == k: runs[-1][1] = k + 1
                    else: runs.append([k, k + 1])
                res = None
                inner = None
                if len(runs) == 1:
                    lo, hi = runs[0]
                    ins = z3.And(z3.UGE(off, BV(lo, 64)), z3.ULT(off, BV(hi, 64))) if lo else z3.ULT(off, BV(hi, 64))
                    ins = simpb(ins)
                    if ins is True or (ins is not False and self.must(st, ins)):
                        return simp(mux(off, tab))
                r = self.rd_byte(st, None, ch, init, off)
                for lo, hi in runs:
                    sub = {k: tab[k] for k in range(lo, hi)}
                    ins = z3.And(z3.UGE(off, BV(lo, 64)), z3.ULT(off, BV(hi, 64)))
                    r = z3.If(ins, mux(off, sub), tz(r, 8))
                return simp(r)
        acc = []   # (cond, value) pending ites
        res = None
        while res is None:
            if ch is None:
                res = self.rd_init(init, off, 1); break
            k = ch[0]
            if k == 'S':
                d = sub64(off, ch[1])
                if isinstance(d, int):
                    if d < ch[2]: res = self.to_bytes(st, ch[3], ch[2])[d]; break
                else:
                    bs = self.to_bytes(st, ch[3], ch[2])
                    c = simpb(z3.ULT(d, BV(ch[2], 64)))
                    v = bs[0] if len(bs) == 1 else mux(d, dict(enumerate(bs)))
                    if c is True: res = v; break
                    if c is not False: acc.append((c, v))
                ch = ch[4]
            elif k in ('C', 'F'):
                dst, ln = ch[1], ch[2]
                d = sub64(off, dst)
                c = (d < ln) if isinstance(d, int) and isinstance(ln, int) else simpb(z3.ULT(tz(d, 64), tz(ln, 64)))
                if c is not False and c is not True:
                    if self.must(st, c): c = True
                    elif self.must(st, z3.Not(c)): c = False
                if c is not False:
                    v = ch[3] if k == 'F' else self.rd_byte(st, ch[3].cells, ch[3].chain, ch[3].init, add64(ch[4], d))
                    if c is True: res = v; break
                    acc.append((c, v))
                ch = ch[-1]
            elif k == 'K':
                res = self.rd_byte(st, ch[1], ch[2], init, off); break
        for c, v in reversed(acc):
            res = z3.If(c, tz(v, 8), tz(res, 8))
        return simp(res) if acc else res

    def write(self, st, o, off, n, v):
        if isinstance(off, int):
            cells = o.cells
            c = cells.get(off)
            if c is not None and c[0] == n:
                # exact replacement (cells never overlap)
                cells[off] = (n, v)
            else:
                if cells: self.clear_cells(st, o, off, n)
                cells[off] = (n, v)
            if isinstance(v, Ptr): o.hasptr = True
        else:
            if o.cells:
                o.chain = ('K', o.cells, o.chain); o.cells = {}
            o.chain = ('S', off, n, v, o.chain)
        if self.wlog is not None: self.wlog.append((o.id, off, n), st)

    def clear_cells(self, st, o, off, n):
        cells = o.cells
        if n > 4 * len(cells) + 64:
            hit = [b for b, c in cells.items() if b < off + n and b + c[0] > off]
        else:
            hit = [b for b in range(off - 16, off + n) if b in cells and b + cells[b][0] > off]
        for b in hit:
            m, old = cells.pop(b)
            if b < off or b + m > off + n:
                bs = self.to_bytes(st, old, m)
                for i in range(m):
                    if not (off <= b + i < off + n): cells[b + i] = (1, bs[i])

    def access(self, st, p, n, what, write=False):
        """bounds / liveness obligations; returns the object"""
        if isinstance(p, Ptr) is False: p = self.to_ptr(st, p)
        if p.obj == 0:
            if isinstance(n, int) and n == 0: return None
            if not isinstance(n, int):
                self.prove(st, n == BV(0, 64), what, 'null or wild pointer')
                return None
            self.prove(st, False, what, 'null or wild pointer')
        o = st.mem.get(p.obj)
        if o.func is not None: self.prove(st, False, what, 'data access to code')
        if not o.live: self.prove(st, False if isinstance(n, int) and n > 0 else (tz(n, 64) == BV(0, 64)), what, 'use after free/scope')
        if write and o.ro: self.prove(st, False, what, 'write to constant')
        sz, off = o.size, p.off
        if isinstance(sz, int) and isinstance(off, int) and isinstance(n, int):
            ok = off + n <= sz
        else:
            s_, o_, n_ = tz(sz, 64), tz(off, 64), tz(n, 64)
            if isinstance(n, int) and isinstance(sz, int):
                ok = z3.ULE(o_, BV(sz - n, 64)) if sz >= n else False
            elif isinstance(n, int):
                ok = z3.And(z3.UGE(s_, n_), z3.ULE(o_, s_ - n_))
            else:
                ok = z3.Or(n_ == BV(0, 64), z3.And(z3.UGE(s_, n_), z3.ULE(o_, s_ - n_)))
        self.prove(st, ok, what, 'in bounds')
        return o

    def conc_val(self, st, t, limit=80):
        """case-split a symbolic value into its concrete values"""
        t = simp(t)
        if isinstance(t, int): return t
        for _ in range(limit):
            if self.replay and isinstance(self.replay[0], tuple):
                v = self.replay.pop(0)[1]
            else:
                m = st.model
                if m is None:
                    r = self.sol.check(st.pc, [], 3000)
                    if r == 'unsat': raise PathEnd('infeasible')
                    if r != 'sat': raise Unsupported('value split')
                    m = self.sol.model; st.model = m
                v = m.eval(t, model_completion=True).as_long()
                self.taken.append(('pick', v))
            if self.decide(st, t == BV(v, t.size())): return v
        raise Unsupported('too many values')

    def small_val(self, st, t, bound):
        """the value of t when it is forced to be at most bound (then case-split), else t itself"""
        t = simp(t)
        if isinstance(t, int): return t
        if self.replay and isinstance(self.replay[0], tuple) or self.must(st, z3.ULE(t, BV(bound, t.size()))):
            return self.conc_val(st, t, bound + 2)
        return t

    def conc_off(self, st, p, limit=80):
        """case-split a symbolic offset into concrete ones (used when pointers are stored there)"""
        off = p.off
        if isinstance(off, int): return p
        return Ptr(p.obj, self.conc_val(st, off, limit))

    def has_ptr_cells(self, o):
        if not o.hasptr: return False
        for n, v in o.cells.values():
            if isinstance(v, Ptr): return True
        return False

    def gap(self, st, o, off, n):
        """the part of an object without pointers that a symbolic offset surely lies in (e.g. a table)"""
        m = st.model
        if m is None:
            if self.sol.check(st.pc, [], 3000) != 'sat': return None
            m = st.model = self.sol.model
        v = m.eval(tz(off, 64), model_completion=True).as_long()
        lo, hi = 0, None
        for b in sorted(o.cells):
            k, x = o.cells[b]
            if not isinstance(x, Ptr): continue
            if b + k <= v: lo = b + k
            elif b < v + n: return None
            else: hi = b; break
        c = z3.UGE(tz(off, 64), BV(lo, 64))
        if hi is not None: c = z3.And(c, z3.ULE(tz(off, 64), BV(hi - n, 64)))
        if not self.must(st, c, 3000): return None
        return Snap({b: x for b, x in o.cells.items() if b >= lo and (hi is None or b < hi)}, o.chain, o.init)

    def load(self, st, p, ty):
        n = ty.size
        if not isinstance(p, Ptr): p = self.to_ptr(st, p)
        if ty.kind in ('struct', 'array', 'vector'):
            if ty.kind == 'struct':
                return [self.load(st, Ptr(p.obj, add64(p.off, ty.offs[i])), e) for i, e in enumerate(ty.elems)]
            return [self.load(st, Ptr(p.obj, add64(p.off, i * ty.elem.size)), ty.elem) for i in range(ty.n)]
        o = self.access(st, p, n, 'load')
        src = o
        if not isinstance(p.off, int) and self.has_ptr_cells(o):
            src = self.gap(st, o, p.off, n)
            if src is None:
                p = self.conc_off(st, p); src = o
        v = self.rd(st, src, p.off, n)
        if ty.kind == 'int':
            if ty.width == 1:
                if isinstance(v, int): return v & 1
                if isinstance(v, z3.BoolRef): return v
                return simpb1(z3.Extract(0, 0, v) == BV(1, 1))
            if ty.width < 8 * n and not isinstance(v, Ptr):
                if isinstance(v, int): return v & mask(ty.width)
                return simp(z3.Extract(ty.width - 1, 0, tz(v, 8 * n)))
            if isinstance(v, z3.BoolRef): return tz(v, 8)
            return v
        if ty.kind == 'ptr':
            if not isinstance(v, Ptr):
                try: v = self.to_ptr(st, v)
                except Unsupported: pass      # raw bits moved around in a pointer-typed register
            return v
        if isinstance(v, Ptr): return self.addr(st, v)
        return v

    def store(self, st, p, ty, v):
        if not isinstance(p, Ptr): p = self.to_ptr(st, p)
        if ty.kind == 'struct':
            if v == 0: v = [0] * len(ty.elems)
            if v is None: return
            for i, e in enumerate(ty.elems):
                if v[i] is not None: self.store(st, Ptr(p.obj, add64(p.off, ty.offs[i])), e, v[i])
            return
        if ty.kind in ('array', 'vector'):
            if isinstance(v, int): v = [0] * ty.n
            if v is None: return
            for i in range(ty.n): self.store(st, Ptr(p.obj, add64(p.off, i * ty.elem.size)), ty.elem, v[i])
            return
        n = ty.size
        o = self.access(st, p, n, 'store', True)
        if v is None: v = self.undef(ty)
        if ty.kind == 'int' and ty.width < 8 * n:
            if isinstance(v, z3.BoolRef): v = tz(v, 8)
            elif not isinstance(v, (int, Ptr)): v = z3.simplify(z3.ZeroExt(8 * n - ty.width, v))
        if not isinstance(p.off, int) and self.has_ptr_cells(o):
            p = self.conc_off(st, p)
        o = self.wobj(st, o.id)
        self.write(st, o, p.off, n, v)

    def memcpy(self, st, d, s, n, move=False):
        if isinstance(n, int) and n == 0: return
        d = self.to_ptr(st, d); s = self.to_ptr(st, s)
        if not isinstance(n, int):
            z = self.decide(st, n == BV(0, 64))
            if z: return
        so = self.access(st, s, n, 'memcpy source')
        do = self.access(st, d, n, 'memcpy destination', True)
        if not move and s.obj == d.obj:
            so_, do_, n_ = tz(s.off, 64), tz(d.off, 64), tz(n, 64)
            self.prove(st, simpb(z3.Or(so_ == do_, z3.ULE(so_ + n_, do_), z3.ULE(do_ + n_, so_))), 'memcpy', 'regions do not overlap')
        if isinstance(n, int) and isinstance(s.off, int) and isinstance(d.off, int) and n <= 1024 and (so.chain is None or n <= 64):
            items = []
            pos = s.off; end = pos + n
            cells = so.cells
            while pos < end:
                c = cells.get(pos)
                if c is not None and pos + c[0] <= end:
                    items.append((pos - s.off, c[0], c[1])); pos += c[0]; continue
                k = 8 if pos + 8 <= end and not self.overlap(cells, pos, 8) and so.chain is None else 1
                v = self.rd(st, so, pos, k)
                items.append((pos - s.off, k, v)); pos += k
            do = self.wobj(st, d.obj)
            if do.cells: self.clear_cells(st, do, d.off, n)
            for o_, k, v in items:
                do.cells[d.off + o_] = (k, v)
                if isinstance(v, Ptr): do.hasptr = True
            if self.wlog is not None: self.wlog.append((do.id, d.off, n), st)
            return
        sn = so.snap()
        do = self.wobj(st, d.obj)
        if do.cells:
            if isinstance(d.off, int) and isinstance(n, int):
                self.clear_cells(st, do, d.off, n)
                if do.cells: do.chain = ('K', do.cells, do.chain); do.cells = {}
            else:
                do.chain = ('K', do.cells, do.chain); do.cells = {}
        if so.hasptr: do.hasptr = True
        do.chain = ('C', d.off, n, sn, s.off, do.chain)
        if self.wlog is not None: self.wlog.append((do.id, d.off, n), st)

    def memset(self, st, d, b, n):
        if isinstance(n, int) and n == 0: return
        d = self.to_ptr(st, d)
        if not isinstance(n, int):
            if self.decide(st, n == BV(0, 64)): return
        do = self.access(st, d, n, 'memset destination', True)
        do = self.wobj(st, d.obj)
        if isinstance(n, int) and isinstance(d.off, int) and n <= 64:
            self.clear_cells(st, do, d.off, n)
            pos = 0
            while pos < n:
                k = 8 if n - pos >= 8 else 1
                do.cells[d.off + pos] = (k, join_bytes([b] * k)); pos += k
        else:
            if isinstance(n, int) and isinstance(d.off, int) and isinstance(do.size, int) and d.off == 0 and n == do.size:
                do.cells = {}; do.chain = None
                if b == 0: do.init = ('zero',)
                else: do.chain = ('F', 0, n, b, None)
            else:
                if do.cells:
                    if isinstance(n, int) and isinstance(d.off, int): self.clear_cells(st, do, d.off, n)
                    if do.cells: do.chain = ('K', do.cells, do.chain)
                    do.cells = {}
                do.chain = ('F', d.off, n, b, do.chain)
        if self.wlog is not None: self.wlog.append((do.id, d.off, n), st)

    # ------------------------------------------------------------------ module setup
    def init_state(self):
        st = State()
        st.frames = []; st.mem = {}; st.pc = []; st.model = None; State._tok += 1; st.tok = State._tok
        st.nfork = 0; st.caught = []; st.exc = None; st.inputs = []; st.facts = []; st.watch = []; st.terms = []; st.done = None
        st.excinfo = {}; st.depth = 0; st.cutctx = None; st.steps = 0; st.weak = []; st.folds = []; st.univ = []; st.ghost = {}; st.outs = []
        self.wlog = None; self.queue = []; self.replay = []; self.taken = []; self.cur0 = None
        nul = Obj(); nul.id = 0; nul.size = 0; nul.base = 0; nul.live = False; nul.kind = 'null'; nul.ro = True; nul.cells = {}; nul.chain = None; nul.init = ('zero',); nul.name = 'null'; nul.func = None; nul.owner = 0; nul.hasptr = False; nul.born = 0
        st.mem[0] = nul
        for n, F in self.mod.funcs.items():
            o = self.new_obj(st, 16, 'func', n); o.func = F; o.init = ('zero',)
            self.funcobj[n] = o.id
        for n, g in self.mod.globs.items():
            o = self.new_obj(st, g.size if not g.decl else max(g.size, 256), 'global', n, g.align, ('zero',) if g.init is not None else ('arr', self.fresh_arr(n)))
            self.globobj[n] = o.id
        for n, g in self.mod.globs.items():
            if g.init is None: continue
            o = st.mem[self.globobj[n]]
            for off, sz, op in g.init:
                if op[0] == 'z': continue
                if op[0] == 'bytes':
                    for i, b in enumerate(op[1]): o.cells[off + i] = (1, b)
                    continue
                v = self.ev(st, None, op)
                if v is None: continue
                o.cells[off] = (sz, v)
                if isinstance(v, Ptr): o.hasptr = True
            if g.const and not n.startswith('_ZTV'): o.ro = True
        ct = self.mod.globs.get('llvm.global_ctors')
        if ct and ct.init:
            ents = {}
            o = st.mem[self.globobj['llvm.global_ctors']]
            lst = []
            stride = ct.ty.elem.size
            for i in range(ct.ty.n):
                pr = o.cells.get(i * stride); fnp = o.cells.get(i * stride + 8)
                lst.append((pr[1] if pr else 0, i, fnp[1]))
            for _, _, fp in sorted(lst, key=lambda x: (x[0], x[1])):
                F = st.mem[fp.obj].func
                self.push(st, F, [], None)
                sts = self.run_until_done([st], setup=True)
                if len(sts) != 1: raise Unsupported('global constructor forks')
                st = sts[0]; st.done = None
        st.steps = 0
        self.setupmem = dict(st.mem)
        return st

    def push(self, st, F, args, call, onret=None):
        f = Frame()
        self.uid += 1
        f.fn = F; f.regs = [None] * F.nregs; f.bb = 0; f.ip = 0; f.prev = -1; f.call = call; f.allocas = []; f.lc = {}; f.uid = self.uid; f.onret = onret
        for i, (r, t) in enumerate(F.params):
            v = args[i] if i < len(args) else None
            if i in F.byval:
                T = F.byval[i]
                o = self.new_obj(st, T.size, 'stack', 'byval', T.align, ('arr', self.fresh_arr('byval')))
                self.memcpy(st, Ptr(o.id, 0), v, T.size)
                f.allocas.append(o.id)
                v = Ptr(o.id, 0)
            f.regs[r] = v
        if len(st.frames) > 400: raise Unsupported('call depth')
        st.frames.append(f)
        self.fnexec.add(F.name)

    # ------------------------------------------------------------------ main loop
    def run_until_done(self, states, setup=False):
        out = []
        saveq = self.queue
        self.queue = list(states)
        try:
            while self.queue:
                st = self.queue.pop()
                r = self.run_path(st)
                if r is not None: out.append(r)
        finally:
            self.queue = saveq
        return out

    def run_path(self, st):
        """run one state until it finishes or stops; returns final state or None when dropped"""
        try:
            if 'pend' in st.ghost:
                self.goto(st, st.frames[-1], st.ghost.pop('pend'))
            while True:
                if st.done is not None:
                    return st
                f = st.frames[-1]
                inst = f.fn.blocks[f.bb].insts[f.ip]
                st.steps += 1
                if st.steps & 1023 == 0:
                    if time.time() > self.deadline: raise Budget('time')
                    if st.steps > self.o['maxsteps']: raise Budget('steps')
                if inst.op in FORKY:
                    e = st.exc
                    self.replay = list(e) if isinstance(e, list) else []
                    self.taken = list(self.replay)
                    st.exc = None
                    self.optab[inst.op](st, f, inst)
                else:
                    h = self.optab.get(inst.op)
                    if h is None: raise Unsupported(inst.op)
                    h(st, f, inst)
        except PathEnd as e:
            self.paths += 1
            if self.paths > self.o['maxpaths']: raise Budget('paths')
            return None

    def setreg(self, f, inst, v):
        f.regs[inst.id] = v
        f.ip += 1

    # ------------------------------------------------------------------ control flow
    def goto(self, st, f, to):
        frm = f.bb
        if st.cutctx is not None: st.cutctx.edge(self, st, f, frm, to)
        blk = f.fn.blocks[to]
        if blk.nphi:
            vals = [self.ev(st, f, I.x[frm]) for I in blk.phis]
            for I, v in zip(blk.phis, vals):
                f.regs[I.id] = self.undef(I.ty) if v is None else v
        f.prev = frm; f.bb = to; f.ip = blk.nphi
        loops = f.fn.loops
        if loops:
            body = loops.get(to)
            if body is not None:
                self.at_header(st, f, frm, to, body)
            # leaving inner loops: forget their counters
            if f.lc:
                for h in [h for h in f.lc if to not in loops[h]]: del f.lc[h]

    def ctxkey(self, st, f, h):
        return tuple((g.fn.name, g.bb, g.ip) for g in st.frames[self.cut_base(st):-1]) + ((f.fn.name, h),)
    def cut_base(self, st): return 0

    def at_header(self, st, f, frm, h, body):
        inside = frm in body
        if not inside:
            f.lc[h] = (0, st.nfork, 0)
            if self.cuts and self.o['cut'] and self.ctxkey(st, f, h) in self.cuts:
                import loops
                loops.cut(self, st, f, h, body)   # raises PathEnd after having queued the exit states
        else:
            cnt, nf, peel = f.lc.get(h, (0, st.nfork, 0))
            if st.nfork != nf: cnt += 1
            f.lc[h] = (cnt, st.nfork, peel)
            if self.cuts and self.o['cut'] and (st.cutctx is None or not st.cutctx.is_target(st, f, h)) and self.ctxkey(st, f, h) in self.cuts:
                import loops
                loops.cut(self, st, f, h, body)
            if cnt > self.o['unroll']:
                if self.o['bounded']: raise PathEnd('bound')
                if self.o['cut']: raise NeedCut(self.ctxkey(st, f, h))
                raise Budget('unroll')

    def op_br(self, st, f, I):
        if len(I.x) == 1:
            self.goto(st, f, I.x[0]); return
        c = self.ev(st, f, I.ops[0])
        if c is None: c = self.fresh_bool('undef')
        if isinstance(c, z3.BitVecRef): c = c == BV(1, 1)
        if self.replay:
            t = self.replay.pop(0)
        elif isinstance(c, int):
            t = bool(c)
        else:
            t = self.br_fork(st, c)
        self.goto(st, f, I.x[0] if t else I.x[1])

    def br_fork(self, st, c):
        c = simpb(c)
        if c is True or c is False: return c
        nc = z3.Not(c)
        t = f = None; mt = mf = None
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v): t = True; mt = st.model
            elif z3.is_false(v): f = True; mf = st.model
        if t is None:
            r = self.sol.check(st.pc, [c], 250 if self.mute else 3000)
            t = r != 'unsat'; mt = self.sol.model
        if f is None:
            if not t: return False
            r = self.sol.check(st.pc, [nc], 250 if self.mute else 3000)
            f = r != 'unsat'; mf = self.sol.model
        if t and f:
            st.nfork += 1
            o = st.clone()
            o.pc.append(nc); o.model = mf
            o.exc = [False]
            self.queue.append(o)
            st.pc.append(c); st.model = mt
            return True
        return bool(t)

    def op_switch(self, st, f, I):
        v = self.ev(st, f, I.ops[0])
        dflt, cases, ty = I.x
        v = self.iv(st, v, ty.width)
        if self.replay:
            r = self.replay.pop(0)
            self.goto(st, f, r); return
        if isinstance(v, z3.BoolRef): v = tz(v, 1)
        if isinstance(v, int):
            for c, b in cases:
                if c == v: self.goto(st, f, b); return
            self.goto(st, f, dflt); return
        # group by target
        tg = {}
        for c, b in cases: tg.setdefault(b, []).append(c)
        opts = []
        for b, cs in tg.items():
            cond = z3.Or(*[v == BV(c, ty.width) for c in cs]) if len(cs) > 1 else v == BV(cs[0], ty.width)
            opts.append((b, cond))
        opts.append((dflt, z3.And(*[v != BV(c, ty.width) for c, _ in cases]) if cases else z3.BoolVal(True)))
        live = []
        for b, c in opts:
            c = simpb(c)
            if c is False: continue
            if c is True: live = [(b, c, st.model)]; break
            ok, m = self.feasible(st, c)
            if ok: live.append((b, c, m))
        if not live: raise PathEnd('infeasible')
        if len(live) > 1: st.nfork += 1
        for b, c, m in live[1:]:
            o = st.clone(); o.pc.append(c); o.model = m; o.exc = [b]
            self.queue.append(o)
        b, c, m = live[0]
        if c is not True and len(live) > 1: st.pc.append(c); st.model = m
        self.goto(st, f, b)

    def op_unreachable(self, st, f, I):
        # reached only after a noreturn call handled elsewhere or by UB
        self.prove(st, False, 'unreachable', 'control reaches unreachable code')

    def op_ret(self, st, f, I):
        v = self.ev(st, f, I.ops[0]) if I.ops else None
        if v is None and I.ops: v = self.undef(I.x[0])
        self.do_return(st, f, v)

    def pop_frame(self, st, f):
        for a in f.allocas:
            st.mem.pop(a, None) if not self.keep_dead else None
        st.frames.pop()
    keep_dead = False

    def do_return(self, st, f, v):
        self.pop_frame_mark(st, f)
        if not st.frames:
            st.done = ('ret', v); return
        if f.onret is not None:
            r = f.onret(st, v)
            if r is not None: v = r
        g = st.frames[-1]
        I = f.call
        if I is None: return
        if I.ty.kind != 'void': g.regs[I.id] = v
        if I.op == 'invoke':
            self.goto(st, g, I.x['norm'])
        else:
            g.ip += 1
            if st.cutctx is not None: st.cutctx.popped(self, st)

    def pop_frame_mark(self, st, f):
        for a in f.allocas:
            o = self.wobj(st, a); o.live = False; o.cells = {}; o.chain = None; o.init = ('zero',)
        st.frames.pop()

    # ------------------------------------------------------------------ exceptions
    def throw(self, st, ptr, ti):
        """unwind from the current call instruction of the top frame"""
        st.ghost['thrown'] = ti
        self.unwind(st, ptr, ti)

    def unwind(self, st, ptr, ti):
        while st.frames:
            f = st.frames[-1]
            I = f.fn.blocks[f.bb].insts[f.ip]
            if I.op == 'invoke':
                ub = f.fn.blocks[I.x['unw']]
                lp = next((J for J in ub.insts if J.op == 'landingpad'), None)
                sel = self.lp_select(st, lp, ti)
                if sel is not None:
                    f.regs[lp.id] = [ptr, sel]
                    if ti.startswith('_ZTIP'): st.ghost['ptradj'] = self.ptr_adj
                    st.ghost['lp'] = lp.id
                    self.goto(st, f, I.x['unw'])
                    return
            self.pop_frame_mark(st, f)
        st.done = ('throw', ti)

    def typeid(self, name):
        if name not in self.tids: self.tids[name] = len(self.tids) + 1
        return self.tids[name]

    def lp_select(self, st, lp, ti):
        clauses, cleanup, kinds = lp.x; self.ptr_adj = 0
        for c, k in zip(clauses, kinds):
            if k == 'array':   # filter: treat as not matching (noexcept(false) specs are not used)
                continue
            if c[0] == 'null' : return self.typeid('...')
            if c[0] == 'g' and self.ti_match(st, ti, c[1]): self.ptr_adj = 0; return self.typeid(c[1])
            if c[0] == 'g' and ti.startswith('_ZTIP') and c[1].startswith('_ZTIP'):   # pointer to a derived class
                pa, pb = self.ti_ref(ti, 24), self.ti_ref(c[1], 24)
                offs = self.ti_bases(pa, pb) if pa and pb else []
                if len(offs) == 1: self.ptr_adj = offs[0]; return self.typeid(c[1])
        return 0 if cleanup else None

    STD_BASES = {'_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt12length_error': '_ZTISt11logic_error',
                 '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception',
                 '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
                 '_ZTISt19bad_optional_access': '_ZTISt9exception'}
    def ti_match(self, st, ti, want):
        seen = 0
        while ti and seen < 10:
            if ti == want: return True
            seen += 1
            if ti in self.STD_BASES: ti = self.STD_BASES[ti]; continue
            g = self.mod.globs.get(ti)
            nxt = None
            if g and g.init:
                for off, sz, op in g.init:
                    if off == 16 and op[0] == 'g': nxt = op[1]
            ti = nxt
        return False

    def ti_ref(self, ti, at):
        g = self.mod.globs.get(ti)
        for off, sz, op in (g.init if g and g.init else ()):
            if off == at and op[0] == 'g': return op[1]
    def ti_int(self, ti, at):
        for off, sz, op in self.mod.globs[ti].init:
            if off == at and op[0] == 'c': return op[1]
        return 0
    def ti_bases(self, ti, want):
        """offsets of the public bases `want` in class `ti` (itself: 0)"""
        if ti == want: return [0]
        g = self.mod.globs.get(ti)
        if not g or not g.init: return []
        vt = next((op for off, sz, op in g.init if off == 0), None); vt = str(vt)
        if '__si_class' in vt:
            b = self.ti_ref(ti, 16); return self.ti_bases(b, want) if b else []
        if '__vmi_class' in vt:
            out = []; at = 24
            while True:
                b = self.ti_ref(ti, at)
                if not b: return out
                fl = self.ti_int(ti, at + 8)
                if fl & 1: raise Unsupported('virtual base in a caught pointer')
                if fl & 2: out += [((fl & M64) >> 8) + o for o in self.ti_bases(b, want)]
                at += 16
        return []

    def op_landingpad(self, st, f, I):
        f.ip += 1   # register was set by unwind

    def op_resume(self, st, f, I):
        v = self.ev(st, f, I.ops[0])
        ptr = v[0]
        ti = st.excinfo[ptr.obj]
        self.pop_frame_mark(st, f)
        self.unwind(st, ptr, ti)

    # ------------------------------------------------------------------ calls
    def op_call(self, st, f, I):
        cal = I.x['callee']
        if cal[0] == 'g':
            F = self.mod.funcs.get(cal[1])
        elif cal[0] == 'asm':
            f.ip += 1; return
        else:
            p = self.ev(st, f, cal)
            if not isinstance(p, Ptr): p = self.to_ptr(st, p)
            if p.obj == 0 or st.mem[p.obj].func is None:
                self.prove(st, False, 'call', 'call through invalid function pointer')
            F = st.mem[p.obj].func
        args = [self.ev(st, f, a) for a in I.ops]
        self.call(st, f, I, F, args)
    op_invoke = op_call

    def call(self, st, f, I, F, args):
        stub = self.contract_for(F)
        if stub is not None and not any(g.fn is stub for g in st.frames):
            self.push(st, stub, args, I); return
        m = self.models.get(F.name)
        if m is None:
            m = self.prefix_model(F.name)
        if m is not None:
            r = m(self, st, f, I, args)
            if r is SKIP: return
            self.ret_to(st, f, I, r)
            return
        if F.decl:
            raise Unsupported('external function ' + F.dem)
        self.push(st, F, args, I)

    def ret_to(self, st, f, I, r):
        if I.ty.kind != 'void': f.regs[I.id] = r
        if I.op == 'invoke': self.goto(st, f, I.x['norm'])
        else: f.ip += 1

    def contract_for(self, F):
        if not self.contracts: return None
        if F.name in self.contract_cache: return self.contract_cache[F.name]
        import re
        r = None
        for pat, stub in self.contracts.items():
            if re.search(pat, F.dem) and F.name != stub:
                r = self.mod.funcs[stub]; self.stubset.add(r); break
        self.contract_cache[F.name] = r
        return r

    def prefix_model(self, name):
        for p, m in self.pmodels:
            if name.startswith(p): return m
        return None

    # ------------------------------------------------------------------ memory instructions
    def op_alloca(self, st, f, I):
        ty, al = I.x
        n = self.ev(st, f, I.ops[0]) if I.ops else 1
        sz = ty.size * n if isinstance(n, int) else simp(tz(n, 64) * BV(ty.size, 64)) if ty.size != 1 else n
        o = self.new_obj(st, sz, 'stack', 'alloca', al or 16)
        o.init = ('arr', self.fresh_arr('stk'))
        f.allocas.append(o.id)
        self.setreg(f, I, Ptr(o.id, 0))

    def op_load(self, st, f, I):
        p = self.ev(st, f, I.ops[0])
        v = self.load(st, p, I.ty)
        self.setreg(f, I, v)

    def op_store(self, st, f, I):
        v = self.ev(st, f, I.ops[0]); p = self.ev(st, f, I.ops[1])
        self.store(st, p, I.x[0], v)
        f.ip += 1

    def op_gep(self, st, f, I):
        p = self.ev(st, f, I.ops[0])
        if isinstance(p, list): raise Unsupported('vector gep')
        if not isinstance(p, Ptr): p = self.to_ptr(st, p)
        coff, dyn = I.x
        off = p.off
        if isinstance(off, int): off = (off + coff) & M64
        elif coff: off = add64(off, coff & M64)
        for o, sc, w in dyn:
            x = self.iv(st, self.ev(st, f, o), w)
            if isinstance(x, int):
                if w < 64 and x >> (w - 1): x |= M64 ^ mask(w)
                off = add64(off, (x * sc) & M64)
            else:
                if w < 64: x = z3.SignExt(64 - w, x)
                if sc != 1: x = x * BV(sc, 64)
                off = add64(off, x)
        self.setreg(f, I, Ptr(p.obj, off))

    def op_fence(self, st, f, I): f.ip += 1

    def op_atomicrmw(self, st, f, I):
        p = self.ev(st, f, I.ops[0]); v = self.ev(st, f, I.ops[1])
        old = self.load(st, p, I.ty); w = I.ty.width
        k = I.x
        if k == 0: nv = v
        elif k == 1: nv = (old + v) & mask(w) if isinstance(old, int) and isinstance(v, int) else simp(tz(old, w) + tz(v, w))
        elif k == 2: nv = (old - v) & mask(w) if isinstance(old, int) and isinstance(v, int) else simp(tz(old, w) - tz(v, w))
        else: raise Unsupported('atomicrmw')
        self.store(st, p, I.ty, nv)
        self.setreg(f, I, old)

    def op_cmpxchg(self, st, f, I):
        p = self.ev(st, f, I.ops[0]); e = self.ev(st, f, I.ops[1]); v = self.ev(st, f, I.ops[2]); ty = I.ty.elems[0]
        old = self.load(st, p, ty)
        if not (isinstance(old, int) and isinstance(e, int)): raise Unsupported('cmpxchg')
        if old == e: self.store(st, p, ty, v)
        self.setreg(f, I, [old, int(old == e)])

    # ------------------------------------------------------------------ integer ops
    def binop(self, st, f, I, fc, fs, bf=None):
        w = I.ty.width
        a = self.ev(st, f, I.ops[0]); b = self.ev(st, f, I.ops[1])
        if I.ty.kind == 'vector':
            if a is None or isinstance(a, int): a = [a or 0] * I.ty.n
            if b is None or isinstance(b, int): b = [b or 0] * I.ty.n
            ew = I.ty.elem.width
            self.setreg(f, I, [self.bin1(st, x, y, ew, fc, fs, bf) for x, y in zip(a, b)]); return
        self.setreg(f, I, self.bin1(st, a, b, w, fc, fs, bf))

    def bin1(self, st, a, b, w, fc, fs, bf):
        a = self.iv(st, a, w); b = self.iv(st, b, w)
        if isinstance(a, int) and isinstance(b, int): return fc(a, b, w) & mask(w)
        if w == 1:
            if bf is None: raise Unsupported('i1 op')
            return simpb1(bf(tob(a), tob(b)))
        return simp(fs(tz(a, w), tz(b, w)))

    def op_add(self, st, f, I): self.binop(st, f, I, lambda a, b, w: a + b, lambda a, b: a + b, z3.Xor)
    def op_sub(self, st, f, I):
        # pointer difference keeps symbolic bases out of the way
        a = self.ev(st, f, I.ops[0]); b = self.ev(st, f, I.ops[1])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            self.setreg(f, I, sub64(a.off, b.off)); return
        self.binop(st, f, I, lambda a, b, w: a - b, lambda a, b: a - b, z3.Xor)
    def op_mul(self, st, f, I): self.binop(st, f, I, lambda a, b, w: a * b, lambda a, b: a * b, z3.And)
    def op_and(self, st, f, I): self.binop(st, f, I, lambda a, b, w: a & b, lambda a, b: a & b, z3.And)
    def op_or(self, st, f, I): self.binop(st, f, I, lambda a, b, w: a | b, lambda a, b: a | b, z3.Or)
    def op_xor(self, st, f, I): self.binop(st, f, I, lambda a, b, w: a ^ b, lambda a, b: a ^ b, z3.Xor)
    def div(self, st, f, I, fc, fs):
        b = self.iv(st, self.ev(st, f, I.ops[1]), I.ty.width)
        if isinstance(b, int):
            if b == 0: self.prove(st, False, 'division', 'divisor is not zero')
        else: self.prove(st, b != BV(0, I.ty.width), 'division', 'divisor is not zero')
        self.binop(st, f, I, fc, fs)
    def divconst(self, st, f, I, which):
        w = I.ty.width
        if I.ty.kind != 'int' or w < 32 or self.inpure is False: return False
        b = self.iv(st, self.ev(st, f, I.ops[1]), w); a = self.iv(st, self.ev(st, f, I.ops[0]), w)
        if not isinstance(b, int) or isinstance(a, int) or b == 0 or b & (b - 1) == 0: return False
        # quotient and remainder as fresh values with their defining equations
        k = (a.get_id(), b, w)
        m = self.divmemo.get(k)
        if m is None:
            q = self.fresh('quot', w); r = self.fresh('rem', w)
            ax = z3.And(a == q * BV(b, w) + r, z3.ULT(r, BV(b, w)), z3.ULE(q, BV(mask(w) // b, w)), z3.ULE(q * BV(b, w), a))
            m = self.divmemo[k] = (q, r, ax, a)
        if isinstance(self.inpure, list): self.inpure.append(m[2])
        elif not any(c is m[2] for c in st.pc):
            st.pc.append(m[2])
            if st.model is not None: st.model = None
        self.setreg(f, I, m[which]); return True
    def op_udiv(self, st, f, I):
        if not self.divconst(st, f, I, 0): self.div(st, f, I, lambda a, b, w: a // b, z3.UDiv)
    def op_urem(self, st, f, I):
        if not self.divconst(st, f, I, 1): self.div(st, f, I, lambda a, b, w: a % b, z3.URem)
    def op_sdiv(self, st, f, I): self.div(st, f, I, lambda a, b, w: tdiv(sgn(a, w), sgn(b, w)), lambda a, b: a / b)
    def op_srem(self, st, f, I): self.div(st, f, I, lambda a, b, w: sgn(a, w) - sgn(b, w) * tdiv(sgn(a, w), sgn(b, w)), z3.SRem)
    def op_shl(self, st, f, I): self.binop(st, f, I, lambda a, b, w: a << b if b < w else 0, lambda a, b: a << b)
    def op_lshr(self, st, f, I): self.binop(st, f, I, lambda a, b, w: a >> b if b < w else 0, z3.LShR)
    def op_ashr(self, st, f, I): self.binop(st, f, I, lambda a, b, w: sgn(a, w) >> min(b, w - 1), lambda a, b: a >> b)

    def op_trunc(self, st, f, I):
        v = self.ev(st, f, I.ops[0]); w0 = I.x[0].width; w = I.ty.width
        v = self.iv(st, v, w0)
        if isinstance(v, int): r = v & mask(w)
        elif w == 1: r = simpb1(z3.Extract(0, 0, v) == BV(1, 1))
        else: r = simp(z3.Extract(w - 1, 0, v))
        self.setreg(f, I, r)
    def op_zext(self, st, f, I):
        v = self.iv(st, self.ev(st, f, I.ops[0]), I.x[0].width); w = I.ty.width
        if isinstance(v, int): r = v
        elif isinstance(v, z3.BoolRef): r = z3.If(v, BV(1, w), BV(0, w))
        else: r = simp(z3.ZeroExt(w - v.size(), v))
        self.setreg(f, I, r)
    def op_sext(self, st, f, I):
        w0 = I.x[0].width; w = I.ty.width
        v = self.iv(st, self.ev(st, f, I.ops[0]), w0)
        if isinstance(v, int): r = sgn(v, w0) & mask(w)
        elif isinstance(v, z3.BoolRef): r = z3.If(v, BV(mask(w), w), BV(0, w))
        else: r = simp(z3.SignExt(w - w0, v))
        self.setreg(f, I, r)
    def op_ptrtoint(self, st, f, I):
        v = self.ev(st, f, I.ops[0])
        if I.ty.width != 64:
            v = self.iv(st, v, 64)
            v = v & mask(I.ty.width) if isinstance(v, int) else simp(z3.Extract(I.ty.width - 1, 0, v))
        self.setreg(f, I, v)          # stays a Ptr until arithmetic needs the address
    def op_inttoptr(self, st, f, I):
        self.setreg(f, I, self.to_ptr(st, self.ev(st, f, I.ops[0])))
    def op_bitcast(self, st, f, I):
        v = self.ev(st, f, I.ops[0]); a = I.x[0]; b = I.ty
        if a.kind == 'vector' or b.kind == 'vector':
            bs = self.to_bytes(st, v, a.size)
            if b.kind == 'vector':
                m = b.elem.size
                v = [join_bytes(bs[i * m:(i + 1) * m]) for i in range(b.n)]
            else: v = join_bytes(bs)
        self.setreg(f, I, v)
    def op_freeze(self, st, f, I):
        v = self.ev(st, f, I.ops[0])
        self.setreg(f, I, self.undef(I.ty) if v is None else v)

    def op_icmp(self, st, f, I):
        pr, ty = I.x
        a = self.ev(st, f, I.ops[0]); b = self.ev(st, f, I.ops[1])
        if ty.kind == 'vector': raise Unsupported('vector icmp')
        self.setreg(f, I, self.icmp(st, pr, a, b, ty))

    def icmp(self, st, pr, a, b, ty):
        w = 64 if ty.kind == 'ptr' else ty.width
        if self.cmplog is not None:
            for v in (a, b):
                if isinstance(v, Ptr): v = v.off
                if v is not None and not isinstance(v, (list, z3.BoolRef)) and w >= 8:
                    self.cmplog[(w, v if isinstance(v, int) else v.get_id())] = v
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if pr in ('eq', 'ne') or a.obj == 0:
                    a, b = a.off, b.off
                else:
                    a, b = self.addr(st, a), self.addr(st, b)
            else:
                if pr in ('eq', 'ne'):
                    if a.obj == 0 or b.obj == 0 :
                        z, o = (a, b) if a.obj == 0 else (b, a)
                        if isinstance(z.off, int) and z.off == 0:
                            return 1 if pr == 'ne' else 0
                    elif not (isinstance(a.off, int) and isinstance(b.off, int)) or True:
                        A, B = st.mem[a.obj], st.mem[b.obj]
                        if not isinstance(A.base, int) or not isinstance(B.base, int): return 1 if pr == 'ne' else 0
                a, b = self.addr(st, a), self.addr(st, b)
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            p, o = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(o, int) and o == 0 and pr in ('eq', 'ne') and p.obj != 0:
                return 1 if pr == 'ne' else 0
            a = self.iv(st, a, w); b = self.iv(st, b, w)
        a = self.iv(st, a, w); b = self.iv(st, b, w)
        if isinstance(a, int) and isinstance(b, int):
            return 1 if icmpc(pr, a, b, w) else 0
        if w == 1:
            x, y = tob(a), tob(b)
            if pr == 'eq': return simpb1(x == y)
            if pr == 'ne': return simpb1(z3.Xor(x, y))
            if pr == 'ult': return simpb1(z3.And(z3.Not(x), y))
            if pr == 'ugt': return simpb1(z3.And(x, z3.Not(y)))
            if pr == 'ule': return simpb1(z3.Or(z3.Not(x), y))
            if pr == 'uge': return simpb1(z3.Or(x, z3.Not(y)))
            raise Unsupported('icmp i1 ' + pr)
        x, y = tz(a, w), tz(b, w)
        return simpb1(ICMPS[pr](x, y))

    def op_select(self, st, f, I):
        c = self.ev(st, f, I.ops[0]); a = self.ev(st, f, I.ops[1]); b = self.ev(st, f, I.ops[2])
        if c is None: c = self.fresh_bool('undef')
        if isinstance(c, int):
            self.setreg(f, I, (a if c else b) if (a if c else b) is not None else self.undef(I.ty)); return
        if isinstance(c, list): raise Unsupported('vector select')
        if a is None or b is None:
            a = self.undef(I.ty) if a is None else a; b = self.undef(I.ty) if b is None else b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj:
            if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off: self.setreg(f, I, a); return
            self.setreg(f, I, Ptr(a.obj, simp(z3.If(c, tz(a.off, 64), tz(b.off, 64))))); return
        if isinstance(a, (Ptr, list)) or isinstance(b, (Ptr, list)):
            self.setreg(f, I, a if self.decide(st, c) else b); return
        w = I.ty.width
        if w == 1:
            self.setreg(f, I, simpb1(z3.If(c, tob(a), tob(b)))); return
        if isinstance(a, int) and isinstance(b, int) and a == b: self.setreg(f, I, a); return
        self.setreg(f, I, simp(z3.If(c, tz(a, w), tz(b, w))))

    # ------------------------------------------------------------------ aggregates
    def agg(self, v, ty):
        if v is None or isinstance(v, int):
            n = len(ty.elems) if ty.kind == 'struct' else ty.n
            return [None if v is None else 0] * n
        return list(v)
    def op_extractvalue(self, st, f, I):
        v = self.ev(st, f, I.ops[0])
        for i in I.x:
            if isinstance(v, int): break
            if v is None: break
            v = v[i]
        if v is None: v = self.undef(I.ty)
        self.setreg(f, I, v)
    def op_insertvalue(self, st, f, I):
        v = self.agg(self.ev(st, f, I.ops[0]), I.ty); x = self.ev(st, f, I.ops[1])
        if len(I.x) == 1: v[I.x[0]] = x
        else:
            cur = v; ty = I.ty
            for i in I.x[:-1]:
                sub = ty.elems[i] if ty.kind == 'struct' else ty.elem
                cur[i] = self.agg(cur[i], sub); cur = cur[i]; ty = sub
            cur[I.x[-1]] = x
        self.setreg(f, I, v)
    def op_extractelement(self, st, f, I):
        v = self.ev(st, f, I.ops[0]); i = self.ev(st, f, I.ops[1])
        if not isinstance(i, int): raise Unsupported('vector index')
        if v is None or isinstance(v, int): self.setreg(f, I, v if v is not None else self.undef(I.ty)); return
        self.setreg(f, I, v[i] if v[i] is not None else self.undef(I.ty))
    def op_insertelement(self, st, f, I):
        v = self.agg(self.ev(st, f, I.ops[0]), I.ty); i = self.ev(st, f, I.ops[2])
        if not isinstance(i, int): raise Unsupported('vector index')
        v[i] = self.ev(st, f, I.ops[1])
        self.setreg(f, I, v)
    def op_shufflevector(self, st, f, I):
        n = None
        a = self.ev(st, f, I.ops[0]); b = self.ev(st, f, I.ops[1])
        la = len(a) if isinstance(a, list) else (len(b) if isinstance(b, list) else I.ty.n)
        a = a if isinstance(a, list) else [a] * la
        b = b if isinstance(b, list) else [b] * la
        ab = a + b
        self.setreg(f, I, [None if m < 0 else ab[m] for m in I.x])

    # ------------------------------------------------------------------ floating point
    def fpv(self, v, w):
        if isinstance(v, int): return bits2f(v, w)
        return None
    def fpbits(self, r, w):
        """IEEE bits of an FP term; the sign and payload of a NaN result are arbitrary"""
        r = z3.simplify(r)
        b = z3.fpToIEEEBV(r)
        if z3.is_fp_value(r) and not r.isNaN(): return simp(b)
        nan = z3.simplify(z3.fpIsNaN(r))
        if z3.is_false(nan): return simp(b)
        eb, mb = (11, 52) if w == 64 else (8, 23)
        nb = z3.Concat(self.fresh('nansign', 1), BV(mask(eb + 1), eb + 1), self.fresh('nanpl', mb - 1))
        return simp(z3.If(nan, nb, b))
    def fps(self, v, w):
        return z3.fpBVToFP(tz(v, w), FSORT[w])
    def fbin(self, st, f, I, cf, sf):
        w = I.ty.width
        a = self.ev(st, f, I.ops[0]); b = self.ev(st, f, I.ops[1])
        a = self.iv(st, a, w); b = self.iv(st, b, w)
        if isinstance(a, int) and isinstance(b, int):
            try: self.setreg(f, I, f2bits(cf(bits2f(a, w), bits2f(b, w)), w)); return
            except (ZeroDivisionError, OverflowError): pass
        r = sf(self.fps(a, w), self.fps(b, w))
        self.setreg(f, I, self.fpbits(r, w))
    def op_fadd(self, st, f, I): self.fbin(st, f, I, lambda a, b: a + b, lambda a, b: z3.fpAdd(RNE, a, b))
    def op_fsub(self, st, f, I): self.fbin(st, f, I, lambda a, b: a - b, lambda a, b: z3.fpSub(RNE, a, b))
    def op_fmul(self, st, f, I): self.fbin(st, f, I, lambda a, b: a * b, lambda a, b: z3.fpMul(RNE, a, b))
    def op_fdiv(self, st, f, I): self.fbin(st, f, I, lambda a, b: a / b, lambda a, b: z3.fpDiv(RNE, a, b))
    def op_fneg(self, st, f, I):
        w = I.ty.width; a = self.iv(st, self.ev(st, f, I.ops[0]), w)
        self.setreg(f, I, a ^ (1 << (w - 1)) if isinstance(a, int) else simp(a ^ BV(1 << (w - 1), w)))
    def op_fcmp(self, st, f, I):
        pr, ty = I.x; w = ty.width
        a = self.iv(st, self.ev(st, f, I.ops[0]), w); b = self.iv(st, self.ev(st, f, I.ops[1]), w)
        if isinstance(a, int) and isinstance(b, int):
            x, y = bits2f(a, w), bits2f(b, w)
            un = x != x or y != y
            base = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}
            if pr == 'ord': r = not un
            elif pr == 'uno': r = un
            elif pr in ('true', 'false'): r = pr == 'true'
            elif pr[0] == 'o': r = not un and base[pr[1:]]
            else: r = un or base[pr[1:]]
            self.setreg(f, I, int(r)); return
        x, y = self.fps(a, w), self.fps(b, w)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y)), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y), 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y)}
        if pr == 'ord': r = z3.Not(un)
        elif pr == 'uno': r = un
        elif pr == 'true': r = z3.BoolVal(True)
        elif pr == 'false': r = z3.BoolVal(False)
        elif pr == 'une': r = z3.Not(z3.fpEQ(x, y))
        elif pr == 'one': r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
        elif pr[0] == 'o': r = base[pr[1:]]()
        else: r = z3.Or(un, base[pr[1:]]())
        self.setreg(f, I, simpb1(r))
    def op_fptoui(self, st, f, I): self.f2i(st, f, I, False)
    def op_fptosi(self, st, f, I): self.f2i(st, f, I, True)
    def f2i(self, st, f, I, s):
        w0 = I.x[0].width; w = I.ty.width
        a = self.iv(st, self.ev(st, f, I.ops[0]), w0)
        if isinstance(a, int):
            x = bits2f(a, w0)
            if x != x or x in (float('inf'), float('-inf')):
                self.setreg(f, I, self.fresh('fpconv', w)); return
            t = math.trunc(x)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            self.setreg(f, I, (t & mask(w)) if lo <= t <= hi else self.fresh('fpconv', w)); return
        x = self.fps(a, w0)
        if w == 1:
            r = z3.fpToUBV(RTZ, x, z3.BitVecSort(8)); self.setreg(f, I, simpb1(z3.Extract(0, 0, r) == BV(1, 1))); return
        r = (z3.fpToSBV if s else z3.fpToUBV)(RTZ, x, z3.BitVecSort(w))
        self.setreg(f, I, simp(r))
    def op_uitofp(self, st, f, I): self.i2f(st, f, I, False)
    def op_sitofp(self, st, f, I): self.i2f(st, f, I, True)
    def i2f(self, st, f, I, s):
        w0 = I.x[0].width; w = I.ty.width
        a = self.iv(st, self.ev(st, f, I.ops[0]), w0)
        if isinstance(a, int):
            x = sgn(a, w0) if s else a
            if w == 64 or abs(x) < (1 << 53): self.setreg(f, I, f2bits(float(x), w)); return
            a = BV(a, w0)
        if isinstance(a, z3.BoolRef): a = tz(a, 8); s = False
        r = z3.fpSignedToFP(RNE, a, FSORT[w]) if s else z3.fpUnsignedToFP(RNE, a, FSORT[w])
        self.setreg(f, I, self.fpbits(r, w))
    def op_fptrunc(self, st, f, I): self.f2f(st, f, I)
    def op_fpext(self, st, f, I): self.f2f(st, f, I)
    def f2f(self, st, f, I):
        w0 = I.x[0].width; w = I.ty.width
        if w == 80 or w0 == 80: raise Unsupported('x86_fp80')
        a = self.iv(st, self.ev(st, f, I.ops[0]), w0)
        if isinstance(a, int):
            x = bits2f(a, w0)
            if x == x:
                try: self.setreg(f, I, f2bits(x, w)); return
                except OverflowError: self.setreg(f, I, f2bits(math.copysign(float('inf'), x), w)); return
            self.setreg(f, I, f2bits(x, w)); return
        r = z3.fpFPToFP(RNE, self.fps(a, w0), FSORT[w])
        self.setreg(f, I, self.fpbits(r, w))

def mentions(t, v):
    todo = [t]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        todo.extend(x.children())
    return False

SKIP = object()
RNE = z3.RNE(); RTZ = z3.RTZ()
FSORT = {32: z3.Float32(), 64: z3.Float64()}
def bits2f(v, w):
    return struct.unpack('<d', struct.pack('<Q', v))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
def f2bits(x, w):
    if w == 64: return struct.unpack('<Q', struct.pack('<d', x))[0]
    try: return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
def sgn(a, w): return a - (1 << w) if a >> (w - 1) & 1 else a
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def icmpc(pr, a, b, w):
    if pr == 'eq': return a == b
    if pr == 'ne': return a != b
    if pr[0] == 's': a, b = sgn(a, w), sgn(b, w)
    return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]]
ICMPS = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE,
         'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y}
def tob(v):
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef): return v == BV(1, 1)
    return v
def simpb1(t):
    t = z3.simplify(t)
    if z3.is_true(t): return 1
    if z3.is_false(t): return 0
    return t
FORKY = {'br', 'switch', 'load', 'store', 'call', 'invoke', 'select', 'inttoptr', 'gep', 'resume', 'icmp', 'sub', 'ptrtoint'}
