"""Runs the contract checks of one property: builds /repo's current sources, generates and discharges every
obligation, replays counterexamples natively, writes the evidence file.
usage: check.py PROPERTY | --replay FILE"""
import sys, os, json, time, re, shutil, tempfile, subprocess, multiprocessing as mp, traceback, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
V = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VF_JOBS', '8'))
ASSUME = [
 'clang 18 -O1 front end and the listed LLVM passes (sroa, early-cse, inline, simplifycfg, instcombine) translate the C++ faithfully; the verified text is the LLVM IR compiled from the working tree on every run',
 'engine/ (symbolic executor, loop-invariant inference) and the solvers z3 / cvc5 are trusted',
 'signed integer arithmetic wraps (-fwrapv); float-to-int casts, shift counts and divisions are obligations, not assumptions',
 'operator new does not fail for requests up to 2^40 bytes and throws bad_alloc above; distinct live objects do not overlap',
 'libstdc++ headers are verified as instantiated; libstdc++.so / libc entry points are modelled in engine/models.py',
]

def labels_of(mod, entry):
    """vf_reach labels statically reachable from entry"""
    seen = set(); todo = [entry]; labs = set()
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        F = mod.funcs.get(n)
        if F is None or F.decl: continue
        for B in F.blocks:
            for I in B.insts:
                if I.op in ('call', 'invoke'):
                    c = I.x['callee']
                    if c[0] == 'g':
                        if c[1] == 'vf_reach':
                            g = mod.globs[I.ops[0][1]]
                            for off, n_, op in g.init:
                                if op[0] == 'bytes': labs.add(op[1][I.ops[0][2]:].split(b'\0')[0].decode())
                        todo.append(c[1])
    return labs

def model_inputs(v, small=True):
    """concrete input vector from a violation's model"""
    import z3
    m = v.model
    if m is None: return None
    if small:
        s = z3.Solver(); s.set('timeout', 4000); s.add(*v.pc)
        szs = [t for k, n, t, x in v.inputs if k == 'size']
        for cap in (4, 16, 64, 300, 5000, 1 << 20):
            if not szs: break
            s.push(); s.add(*[z3.ULE(t, z3.BitVecVal(cap, 64)) for t in szs])
            r = s.check()
            if r == z3.sat: m = s.model(); break
            s.pop()
    lines = []
    for k, n, t, x in v.inputs:
        if k in ('u', 'size'):
            w = 64 if k == 'size' else x
            e = m.eval(t, model_completion=True)
            val = (1 if z3.is_true(e) else 0) if w == 1 else e.as_long()
            lines.append('u %s %s' % (n, val.to_bytes(max(1, (w + 7) // 8), 'little').hex()))
        else:
            sz = x if isinstance(x, int) else m.eval(x, model_completion=True).as_long()
            if sz > 1 << 22: return None
            bs = bytes(m.eval(z3.Select(t, z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(sz))
            lines.append('b %s %s' % (n, bs.hex()))
    return lines

def run_entry(mod, entry, opts, contracts):
    """one proof attempt; returns plain data"""
    import execu, mem
    from execu import Exec, NeedCut, Budget
    t0 = time.time()
    cuts = set(); restarts = 0
    deadline = t0 + opts.get('time', 120)
    while True:
        o = dict(opts); o['time'] = max(1, deadline - time.time())
        ex = Exec(mod, o)
        ex.cuts = cuts
        ex.contracts = contracts
        err = None
        try:
            st = ex.init_state()
            base_obl = (ex.nobl, ex.ndis); ex.nobl = ex.ndis = 0; ex.obl = {}; ex.fnexec = set()
            ex.sol.by = {k: 0 for k in ex.sol.by}
            ex.push(st, mod.funcs[entry], [], None)
            fin = ex.run_until_done([st])
            for s in fin:
                if s.done and s.done[0] == 'throw':
                    ex.nobl += 1
                    ex.undischarged.append(('exception', 'exception %s escapes the harness' % s.done[1], ''))
                    r = ex.sol.check(s.pc, [], 3000)
                    if r == 'unsat': ex.undischarged.pop(); ex.ndis += 1
                    elif r == 'sat':
                        ex.undischarged.pop()
                        ex.violations.append(execu.Violation('exception', 'exception %s escapes the harness' % s.done[1], '', list(s.inputs), ex.sol.model, [], s.ghost.get('havoc'), list(s.pc)))
        except NeedCut as e:
            if e.key in cuts: err = 'loop cannot be cut'
            else:
                cuts = cuts | {e.key}; restarts += 1
                if time.time() < deadline: continue
                err = 'time'
        except Budget as e:
            if str(e) != 'violations': err = 'budget: %s' % e
        except mem.Unsupported as e:
            err = 'unsupported: %s' % e
        except RecursionError:
            err = 'recursion'
        except Exception as e:
            err = 'internal: ' + traceback.format_exc()[-1500:]
        break
    labs = labels_of(mod, entry)
    missing = sorted(l for l in labs if not ex.reached.get(l)) if not opts.get('bounded') else []
    viol = []
    for v in ex.violations:
        try: inp = model_inputs(v)
        except Exception as e: inp = None
        viol.append(dict(kind=v.kind, label=v.label, loc=v.loc, stack=v.stack, inputs=inp, havoc=bool(v.weak)))
    fns = {}
    for n in ex.fnexec:
        F = mod.funcs[n]
        for B in F.blocks:
            for I in B.insts:
                if I.file:
                    fns[F.dem[:200]] = I.file.split('/repo/')[-1] if '/repo/' in I.file else I.file
                    break
            else: continue
            break
    status = 'proved'
    if viol: status = 'violated'
    elif err or ex.undischarged or missing or ex.nobl == 0: status = 'undecided'
    return dict(entry=entry, status=status, err=err, nobl=ex.nobl, ndis=ex.ndis, by=ex.sol.by, solver_s=round(ex.sol.time, 2), queries=ex.sol.n, wall=round(time.time() - t0, 2),
                paths=ex.paths, viol=viol, undis=[list(u) for u in ex.undischarged], missing=missing, reached=sorted(ex.reached), functions=fns, cuts=len(cuts), restarts=restarts,
                invariants=ex.cutinfo_text() if hasattr(ex, 'cutinfo_text') else [], trusted=sorted(ex.trusted), notes=sorted(ex.notes), bounded=bool(opts.get('bounded') or opts.get('sizecap')))

def worker(args):
    mod, entry, opts, contracts = args
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    except Exception: pass
    try:
        return run_entry(mod, entry, opts, contracts)
    except BaseException as e:
        return dict(entry=entry, status='undecided', err='internal: ' + repr(e), nobl=0, ndis=0, by={}, solver_s=0, queries=0, wall=0, paths=0, viol=[], undis=[], missing=[], reached=[], functions={}, cuts=0, restarts=0, invariants=[], trusted=[], notes=[], bounded=False)

def pool_run(tasks, hard):
    """tasks: list of args for worker; each in its own forked process, at most NPROC at once; killed at the hard time limit"""
    ctx = mp.get_context('fork')
    res = [None] * len(tasks); running = []; todo = list(range(len(tasks)))
    todo.sort(key=lambda i: -tasks[i][2].get('weight', 1))
    while todo or running:
        while todo and len(running) < NPROC:
            i = todo.pop(0)
            r, w = ctx.Pipe(False)
            def target(w=w, i=i):
                w.send(worker(tasks[i])); w.close(); os._exit(0)
            p = ctx.Process(target=target); p.start(); w.close()
            running.append((i, p, r, time.time()))
        mp.connection.wait([r for _, _, r, _ in running], timeout=1.0)
        nr = []
        for i, p, r, t in running:
            lim = tasks[i][2].get('time', 120) + 60
            if r.poll():
                try: res[i] = r.recv()
                except EOFError: res[i] = None
                p.join(5)
                if p.is_alive(): p.kill()
                if res[i] is None: res[i] = dead(tasks[i], 'process ended')
            elif not p.is_alive():
                res[i] = dead(tasks[i], 'process ended (memory limit?)')
            elif time.time() - t > lim or time.time() > hard:
                p.kill(); p.join(); res[i] = dead(tasks[i], 'time limit')
            else: nr.append((i, p, r, t))
        running = nr
        if time.time() > hard and todo:
            for i in todo: res[i] = dead(tasks[i], 'time limit of the check')
            todo = []
    return res
def dead(t, why):
    return dict(entry=t[1], status='undecided', err=why, nobl=0, ndis=0, by={}, solver_s=0, queries=0, wall=0, paths=0, viol=[], undis=[], missing=[], reached=[], functions={}, cuts=0, restarts=0, invariants=[], trusted=[], notes=[], bounded=False)

# ------------------------------------------------------------------ native replay
NATF = ['-O1', '-g', '-fsanitize=address,float-cast-overflow,shift-exponent,integer-divide-by-zero', '-fno-sanitize-recover=all', '-DVF_NATIVE', '-fno-omit-frame-pointer']
class Native:
    def __init__(self, work):
        self.work = work; self.libs = None; self.bins = {}; self.lock = threading.Lock()
    def lib(self):
        with self.lock:
            if self.libs is None:
                import concurrent.futures as cf
                out = {}
                def one(s):
                    o = os.path.join(self.work, 'nat_' + s.replace('/', '_') + '.o')
                    c = [build.CC, '-std=gnu99'] if s.endswith('.c') else [build.CXX, '-std=c++17', '-fno-access-control']
                    build.run(c + build.COMMON + NATF + ['-c', os.path.join(build.REPO, s), '-o', o]); return s, o
                with cf.ThreadPoolExecutor(8) as ex:
                    self.libs = dict(ex.map(one, build.lib_sources()))
        return self.libs
    def binary(self, harness, entry):
        k = (harness, entry)
        if k in self.bins: return self.bins[k]
        libs = self.lib()
        src = os.path.join(V, 'harness', harness + '.cpp')
        inc = build.included_sources(src)
        ho = os.path.join(self.work, 'nat_h_%s.o' % harness)
        if not os.path.exists(ho):
            build.run([build.CXX, '-std=c++17', '-fno-access-control'] + build.COMMON + NATF + ['-c', src, '-o', ho])
        o = os.path.join(self.work, 'nat_%s_%s' % k)
        build.run([build.CXX, '-std=c++17', '-fno-access-control'] + build.COMMON + NATF + ['-DVF_ENTRYPOINT=' + entry, os.path.join(V, 'harness', 'native.cpp'), ho]
                  + [p for s, p in libs.items() if s not in inc] + ['-o', o, '-lstdc++', '-lm'])
        self.bins[k] = o
        return o
    def replay(self, harness, entry, path, timeout=60):
        """(confirmed, text)"""
        b = self.binary(harness, entry)
        try:
            r = subprocess.run([b, 'replay', path], capture_output=True, text=True, errors='replace', timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            return True, 'the replayed run does not end within %d s' % timeout
        ok = r.returncode not in (0, 3, 4)
        return ok, 'exit status %d\n%s' % (r.returncode, (r.stderr or '')[-6000:])
    def fuzz(self, harness, entry, secs, seed):
        b = self.binary(harness, entry)
        procs = []
        for i in range(NPROC):
            lg = os.path.join(self.work, 'fuzz_%s_%d.log' % (entry, i))
            procs.append((lg, subprocess.Popen([b, 'fuzz', str(seed * 1000003 + i * 7919000), str(secs), lg], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', cwd=self.work)))
        hit = None; runs = 0
        for lg, p in procs:
            try: _, err = p.communicate(timeout=secs + 30)
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate(); continue
            if p.returncode not in (0, 3, 4) and hit is None:
                data = open(lg, 'rb').read().split(b'\0')[0].decode('utf-8', 'replace')
                hit = (data.strip().split('\n'), 'exit status %d\n%s' % (p.returncode, err[-6000:]))
            m = re.search(r'fuzz: (\d+) runs', err or '')
            if m: runs += int(m.group(1))
        return hit, runs

def write_replay(path, prop, harness, entry, inputs, head):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write('# property=%s harness=%s entry=%s\n# replay: cd /verif && ./check --replay %s\n' % (prop, harness, entry, path))
        for l in head.split('\n'): f.write('# ' + l + '\n')
        for l in inputs or []: f.write(l + '\n')

def replay_file(path):
    txt = open(path).read()
    m = re.search(r'harness=(\S+) entry=(\S+)', txt)
    work = tempfile.mkdtemp(prefix='vfreplay')
    try:
        ok, t = Native(work).replay(m.group(1), m.group(2), os.path.abspath(path))
        print(t); print('failure reproduced' if ok else 'no failure')
        return 1 if ok else 0
    finally: shutil.rmtree(work, ignore_errors=True)

def known(prop):
    p = os.path.join(V, 'known_findings.jsonl'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop: r.append(d)
    return r

def main(prop):
    import jobs
    t0 = time.time()
    hard = t0 + (820 if TIER == 'quick' else 5400)
    spec = jobs.JOBS[prop]
    outdir = os.path.join(V, 'out', prop)
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    nat = Native(work)
    alarms = []; results = []; kf = []
    builderr = None
    try:
        try:
            libs = build.build_lib(work)
            mods = {}
            import llvmc, concurrent.futures as cf
            hs = {j['harness'] for j in spec['jobs']}
            def prep(h):
                src = os.path.join(V, 'harness', h + '.cpp')
                hb = os.path.join(work, h + '.bc')
                build.compile_bc(src, hb)
                inc = build.included_sources(src)
                return h, hb, inc
            with cf.ThreadPoolExecutor(8) as ex:
                hbs = {h: (hb, inc) for h, hb, inc in ex.map(prep, sorted(hs))}
            entries = {}
            for h, (hb, inc) in hbs.items():
                names = [l.split()[-1] for l in build.run([build.LLVM + 'llvm-nm', '--defined-only', hb]).splitlines()]
                entries[h] = [n for n in names if n.startswith('vf_')]
            tasks = []
            groups = {}
            for j in spec['jobs']:
                if TIER == 'quick' and j.get('thorough'): continue
                es = [e for e in entries[j['harness']] if re.fullmatch(j['entries'], e)]
                if not es: raise build.BuildError('no entries match ' + j['entries'])
                groups.setdefault((j['harness'], tuple(j.get('noinline', ())) + tuple(j.get('contracts', {})), tuple(sorted(j.get('contracts', {}).items()))), []).append((j, es))
            def link(item):
                i, ((h, ni, con), js) = item
                hb, inc = hbs[h]
                out = os.path.join(work, 'm%d.bc' % i)
                es = sorted({e for j, l in js for e in l})
                stubs = [s for _, s in con]
                build.link_module(work, hb, [o for s, o in libs.items() if s not in inc], es + stubs, out, ni)
                return (h, ni, con), out
            with cf.ThreadPoolExecutor(8) as ex:
                for k, out in ex.map(link, list(enumerate(groups.items()))):
                    mods[k] = llvmc.Module(out)
            for k, js in groups.items():
                for j, es in js:
                    for e in es:
                        o = dict(j.get('opts', {}))
                        o.setdefault('time', 150)
                        if TIER == 'thorough':
                            o['time'] = o['time'] * 4
                            o.update(j.get('thorough_opts', {}))
                        tasks.append((mods[k], e, o, dict(k[2]), j))
        except build.BuildError as e:
            builderr = str(e)
        except Exception:
            builderr = traceback.format_exc()
        if builderr is None:
            res = pool_run([t[:4] for t in tasks], hard - 100)
            bad = [(t, r) for t, r in zip(tasks, res) if r['status'] != 'proved']
            results = res
            # ---- failing obligations: look for a concrete failing input
            try:
                if bad: alarms = triage(prop, bad, nat, work, outdir, hard)
            except Exception:
                alarms = alarms or [(os.path.join(outdir, 'triage.txt'), False)]
                write_replay(alarms[0][0], prop, '-', '-', [], 'obligations not discharged: %s\n%s' % (', '.join(r['entry'] for _, r in bad), traceback.format_exc()))
            for d in known(prop):
                p = os.path.join(V, d['replay'])
                ok, txt = nat.replay(d['harness'], d['entry'], p)
                if ok: kf.append(d)
            if not alarms and (TIER == 'thorough' or any(j.get('quickfuzz') for j in spec['jobs'])):
                # cross-check: the same harnesses, natively, with random inputs
                left = max(30, min(1500, hard - time.time() - 200)); n = max(1, len(tasks))
                secs = max(2, min(20, int(left / n)))
                cross = {}
                for t in tasks:
                    if t[4].get('nofuzz') or time.time() > hard - 60: continue
                    if TIER != 'thorough':
                        secs = t[4].get('quickfuzz')
                        if not secs: continue
                    try: hit, runs = nat.fuzz(t[4]['harness'], t[1], secs, SEED)
                    except build.BuildError: continue
                    cross[t[1]] = runs
                    if hit:
                        p = os.path.join(outdir, t[1] + '.replay')
                        write_replay(p, prop, t[4]['harness'], t[1], hit[0], 'found by the native cross-check (the proof accepted it: engine defect or model gap)\n' + hit[1])
                        alarms.append((p, True))
                results[0].setdefault('crosscheck', cross)
        else:
            p = os.path.join(outdir, 'build.txt')
            write_replay(p, prop, '-', '-', [], 'the obligations could not be generated from the current sources:\n' + builderr)
            alarms = [(p, False)]
    finally:
        if not os.environ.get('VF_KEEP'): shutil.rmtree(work, ignore_errors=True)
        else: print('work dir', work)
    nobl = sum(r['nobl'] for r in results); ndis = sum(r['ndis'] for r in results)
    by = {}
    fns = {}
    for r in results:
        for k, v in r['by'].items(): by[k] = by.get(k, 0) + v
        fns.update(r['functions'])
    repo_f = sorted(k for k, v in fns.items() if v.startswith(('src/', 'include/Srl')))
    bounded = sorted(r['entry'] for r in results if r['bounded'])
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=spec['level'],
      coverage=dict(obligations=nobl, discharged=ndis, checker_cmd='./check ' + prop, trusted_base=ASSUME + sorted({t for r in results for t in r['trusted']}) + spec.get('trusted', []),
        backends=by, solver_seconds=round(sum(r['solver_s'] for r in results), 1), solver_queries=sum(r['queries'] for r in results),
        harness_entries=len(results), proved_entries=sum(1 for r in results if r['status'] == 'proved' and not r['bounded']), bounded_entries=bounded,
        bounds=spec.get('bounds', ''), loops_cut_with_invariants=sum(r['cuts'] for r in results), paths=sum(r['paths'] for r in results),
        functions_under_contract=spec.get('functions', []), repo_functions_executed=repo_f, other_functions_executed=len(fns) - len(repo_f),
        reach_labels=sorted({l for r in results for l in r['reached']}),
        samples=[{k: r[k] for k in ('entry', 'status', 'nobl', 'ndis', 'solver_s', 'wall', 'cuts', 'by')} for r in results[:60]],
        crosscheck=next((r['crosscheck'] for r in results if 'crosscheck' in r), {}),
        explanation=spec.get('note', '')),
      assumptions=ASSUME + spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(alarms))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for d in kf: print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    for r in results:
        if r['status'] != 'proved' or os.environ.get('VF_VERBOSE'):
            print('%-11s %s obligations %d/%d solver %.1fs wall %.1fs cuts %d %s %s %s' % (r['status'], r['entry'], r['ndis'], r['nobl'], r['solver_s'], r['wall'], r['cuts'], r['err'] or '', [(v['kind'], v['label'], v['loc']) for v in r['viol']][:3], r['undis'][:3] + r['missing']))
    print('%s: %d entries, %d/%d obligations discharged, %.1f s' % (prop, len(results), ndis, nobl, time.time() - t0))
    if alarms:
        conf = [a for a in alarms if a[1]]
        p, c = (conf or alarms)[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if c else ' no-failing-input-found'))
        return 1
    return 0

def triage(prop, bad, nat, work, outdir, hard):
    alarms = []
    def head(r):
        t = 'failed obligations of %s:\n' % r['entry']
        for v in r['viol']: t += '  %s: %s at %s\n' % (v['kind'], v['label'], v['loc']) + ''.join('      %s\n' % s for s in v['stack'][-8:])
        for u in r['undis']: t += '  not discharged: %s\n' % (u,)
        if r['missing']: t += '  not reached: %s\n' % r['missing']
        if r['err']: t += '  verifier: %s\n' % r['err']
        return t
    def confirm(t, r, inputs, tag):
        p = os.path.join(outdir, '%s.%s.replay' % (r['entry'], tag))
        write_replay(p, prop, t[4]['harness'], t[1], inputs, head(r))
        try: ok, txt = nat.replay(t[4]['harness'], t[1], p)
        except build.BuildError: ok, txt = False, ''    # entries about internal states have no native form
        if ok:
            write_replay(p, prop, t[4]['harness'], t[1], inputs, head(r) + 'native replay: ' + txt)
            return p
        os.unlink(p); return None
    # 1. models of the proof attempt
    for t, r in bad:
        for n, v in enumerate(r['viol'][:4]):
            if v['inputs'] is not None:
                p = confirm(t, r, v['inputs'], 'model%d' % n)
                if p: alarms.append((p, True)); return alarms
    # 2. bounded unrolling to get a concrete model
    bt = []
    for t, r in bad[:16]:
        o = dict(t[2]); o.update(bounded=True, cut=False, unroll=10, time=min(60, max(5, hard - time.time() - 90)), sizecap=12, maxviol=3)
        bt.append((t[0], t[1], o, {}))
    if bt and time.time() < hard - 100:
        for (t, r), r2 in zip(bad, pool_run(bt, min(hard - 60, time.time() + 130))):
            for n, v in enumerate(r2['viol'][:3]):
                if v['inputs'] is not None:
                    p = confirm(t, dict(r2, err=r['err'], undis=r['undis'], missing=r['missing']), v['inputs'], 'bounded%d' % n)
                    if p: alarms.append((p, True)); return alarms
    # 3. native search
    left = hard - time.time() - 30
    per = max(3, min(25, int(left / max(1, len(bad)))))
    for t, r in bad:
        if time.time() > hard - per - 20: break
        if t[4].get('nofuzz'): continue
        try: hit, runs = nat.fuzz(t[4]['harness'], t[1], per, SEED)
        except build.BuildError: continue
        if hit:
            p = confirm(t, r, hit[0], 'fuzz')
            if p: alarms.append((p, True)); return alarms
    p = os.path.join(outdir, bad[0][1]['entry'] + '.txt')
    write_replay(p, prop, bad[0][0][4]['harness'], bad[0][1]['entry'], [], '\n'.join(head(r) for _, r in bad))
    return [(p, False)]

if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '--replay': sys.exit(replay_file(sys.argv[2]))
    try:
        rc = main(sys.argv[1])
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        p = os.path.join(V, 'out', 'error_%s.txt' % sys.argv[1])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (sys.argv[1], p)); rc = 1
    sys.stdout.flush()
    os._exit(rc)
