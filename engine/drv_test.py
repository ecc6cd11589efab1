import sys, os, time
sys.path.insert(0, os.path.dirname(__file__))
import build, llvmc, execu
from execu import *
def main():
    h = sys.argv[1]; entries = sys.argv[2].split(',')
    work = '/tmp/vfdev'; os.makedirs(work, exist_ok=True)
    t0 = time.time()
    if not os.path.exists(work + '/lib.done') or '--lib' in sys.argv:
        build.build_lib(work); open(work + '/lib.done', 'w').close()
    src = build.VERIF + '/harness/' + h + '.cpp'
    hb = work + '/' + h + '.bc'
    build.compile_bc(src, hb)
    inc = build.included_sources(src)
    libs = [os.path.join(work, s.replace('/', '_') + '.bc') for s in build.lib_sources() if s not in inc]
    t1 = time.time()
    for e in entries:
        out = work + '/' + h + '.' + e + '.bc'
        con = dict(a[2:].split('=') for a in sys.argv if a.startswith('C:')); build.link_module(work, hb, libs, [e] + list(con.values()), out, list(con))
        t2 = time.time()
        mod = llvmc.Module(out)
        t3 = time.time()
        ex = None; cuts = set()
        while True:
            ex = Exec(mod, dict(time=300, bounded='-b' in sys.argv, unroll=int(next((a[2:] for a in sys.argv if a.startswith('U:')), 10 if '-b' in sys.argv else 40)))); ex.cuts = cuts; ex.debugloops = '-d' in sys.argv
            for a in sys.argv:
                if a.startswith('C:'): k, v = a[2:].split('='); ex.contracts[k] = v
            st = ex.init_state()
            t4 = time.time()
            ex.push(st, mod.funcs[e], [], None)
            try:
                fin = ex.run_until_done([st]); break
            except NeedCut as nc:
                print('cut', nc.key); cuts.add(nc.key); continue
            except Exception as x:
                import traceback; traceback.print_exc(); fin = []; break
        try: pass
        except Exception as x:
            import traceback; traceback.print_exc(); fin = []
        t5 = time.time()
        print(e, 'funcs', len(mod.funcs), 'build %.1f link %.1f load %.1f init %.1f run %.1f' % (t1-t0, t2-t1, t3-t2, t4-t3, t5-t4), 'obl', ex.nobl, 'dis', ex.ndis, 'paths', ex.paths, 'fin', [s.done for s in fin][:5], len(fin), 'reach', list(ex.reached), ex.sol.by)
        for v in ex.violations: 
            print('  VIOL', v.kind, v.label, v.loc, {n: (v.model.eval(t, model_completion=True) if v.model is not None and k in ('u','size') else None) for k,n,t,x in v.inputs})
            if '-s' in sys.argv: print('\n'.join('      '+x for x in v.stack))
        for u in ex.undischarged: print('  UNDIS', u)
        if '-f' in sys.argv: print(sorted(mod.funcs[n].dem[:100] for n in ex.fnexec))
if __name__ == '__main__': main()
