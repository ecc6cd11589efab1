"""Solver front: incremental z3 mirroring the current path, fresh z3 tactics and cvc5 as back-ups."""
import z3, time, subprocess, tempfile, os
z3.set_param('memory_max_size', 6000)

class Solver:
    def __init__(self):
        self.s = z3.Solver()
        self.s.set('timeout', 1500)
        self.stack = []          # ids of asserted path conditions
        self.keep = []
        self.n = 0; self.time = 0.0
        self.by = {'z3-incremental': 0, 'z3-fresh': 0, 'cvc5': 0, 'cvc5-int': 0, 'syntactic': 0}
        self.model = None
        self.deadline = None
        self.cache = {}
        self.miss = 0; self.amemo = {}; self.luck = 0

    def sync(self, pc):
        st = self.stack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]: i += 1
        if i < len(st):
            self.s.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.s.push(); self.s.add(c); st.append(c)

    def check(self, pc, extra=(), timeout=1500, strong=False):
        """'sat' / 'unsat' / 'unknown'; on sat self.model is set"""
        t0 = time.time()
        self.n += 1
        self.model = None
        first = min(timeout, 200 if self.miss < 3 else 60)
        rs = self.inc(pc, extra, first)
        self.miss = self.miss + 1 if rs == 'unknown' else 0
        if rs == 'unknown' and timeout > 250:
            if self.local(pc, extra): 
                self.time += time.time() - t0; return 'unsat'
            cs = list(pc) + list(extra)
            first_int = self.luck < -2        # which of the two has decided the recent goals
            txt = None
            if not first_int: rs = self.plain(cs, min(timeout, 600))
            if rs == 'unknown':
                txt = self.smt2(cs)
                r = self.cvc5run(txt, min(timeout, 2000) / 1000.0, ['--solve-bv-as-int=sum'])
                if r == 'unsat': rs = 'unsat'; self.back = 'cvc5-int'; self.luck = max(-6, self.luck - 1)
                elif first_int:
                    self.luck += 2; rs = self.plain(cs, min(timeout, 600))
            elif not first_int: self.luck = min(3, self.luck + 1)
            if rs == 'unknown':
                if timeout >= 3000:
                    r = self.cvc5run(txt, min(timeout, 2000) / 1000.0)
                    if r == 'unsat': rs = 'unsat'; self.back = 'cvc5'
            if rs == 'unknown': rs = self.fresh(cs, timeout if not strong else 4000)
            if rs == 'unknown' and strong:
                rs = self.strong(list(pc) + list(extra), txt)
        d = time.time() - t0
        self.time += d
        return rs

    def atoms(self, t):
        """maximal array reads and free variables of a term"""
        i = t.get_id()
        r = self.amemo.get(i)
        if r is not None: return r[1]
        out = {}; todo = [t]; seen = set()
        while todo:
            x = todo.pop(); k = x.get_id()
            if k in seen: continue
            seen.add(k)
            if z3.is_select(x): out[k] = x
            elif not x.children():
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[k] = x
            else: todo.extend(x.children())
        if len(self.amemo) > 100000: self.amemo.clear()
        self.amemo[i] = (t, out)
        return out
    def local(self, pc, extra):
        """is the goal refuted by the hypotheses over the goal's own atoms alone (array reads taken as
        unconstrained bytes)?  Dropping hypotheses is sound for 'unsat'."""
        at = {}
        for e in extra: at.update(self.atoms(e))
        if not any(z3.is_select(x) for x in at.values()): return False
        cs = list(extra)
        for c in pc:
            a = self.atoms(c)
            if a and all(k in at for k in a): cs.append(c)
        sub = [(x, z3.BitVec('@a%d' % i, x.size()) if z3.is_bv(x) else None) for i, x in enumerate(at.values()) if z3.is_select(x)]
        if any(b is None for _, b in sub): return False
        try:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat').solver()
            s.set('timeout', 1500)
            s.add(*[z3.substitute(c, *sub) for c in cs])
            if s.check() == z3.unsat:
                self.back = 'z3-local'; self.by.setdefault('z3-local', 0); return True
        except z3.Z3Exception: pass
        return False

    def inc(self, pc, extra, timeout):
        try:
            self.sync(pc)
            self.s.set('timeout', timeout)
            self.s.push()
            for e in extra: self.s.add(e)
            r = self.s.check()
            if r == z3.sat: self.model = self.s.model()
            self.s.pop()
            self.back = 'z3-incremental'
            return str(r)
        except z3.Z3Exception:
            self.reset(); return 'unknown'

    def plain(self, cs, timeout):
        try:
            s = z3.Solver(); s.set('timeout', int(timeout)); s.add(*cs)
            r = s.check()
            if r == z3.sat: self.model = s.model()
            self.back = 'z3-fresh'
            return str(r)
        except z3.Z3Exception:
            return 'unknown'

    def fresh(self, cs, timeout):
        try:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'smt').solver()
            s.set('timeout', int(timeout))
            s.add(*cs)
            r = s.check()
            if r == z3.sat: self.model = s.model()
            self.back = 'z3-fresh'
            return str(r)
        except z3.Z3Exception:
            return 'unknown'

    def smt2(self, cs):
        s = z3.Solver(); s.add(*cs)
        return '(set-logic ALL)\n' + '\n'.join(l for l in s.to_smt2().split('\n') if not l.startswith('(set-info'))

    def cvc5run(self, txt, budget, opts=()):
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        try:
            f.write(txt); f.close()
            r = subprocess.run(['cvc5', '--tlimit=%d' % max(100, int(budget * 1000))] + list(opts) + [f.name], capture_output=True, text=True, timeout=budget + 20)
            o = r.stdout.strip().split('\n')[0]
            return o if o in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

    def reset(self):
        self.s = z3.Solver(); self.s.set('timeout', 1500); self.stack = []

    def strong(self, cs, txt, budget=90):
        if self.deadline: budget = max(2, min(budget, self.deadline - time.time()))
        r = self.cvc5run(txt, budget / 4, ['--solve-bv-as-int=sum'])
        if r == 'unsat': self.back = 'cvc5-int'; return 'unsat'
        try:
            s = z3.Solver(); s.set('timeout', int(budget * 1000 / 4)); s.add(*cs)
            r = s.check()
            if r == z3.sat: self.model = s.model(); self.back = 'z3-fresh'; return 'sat'
            if r == z3.unsat: self.back = 'z3-fresh'; return 'unsat'
        except z3.Z3Exception: pass
        r = self.cvc5run(txt, budget / 2)
        if r == 'unsat': self.back = 'cvc5'; return 'unsat'
        return 'unknown'
