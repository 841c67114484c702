"""Analyse the driver functions of one property and report."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, interp, models, models_std, models_thr, models_proc


def analyse(mod, fname, cfg=None, args=()):
    I = interp.Interp(mod, models.M)
    if cfg:
        cfg(I)
    t = time.time()
    st = I.run(I.start(fname, list(args)))
    I.stats['time'] = time.time() - t
    return I, st


if __name__ == '__main__':
    t = time.time()
    mod = ir.load(sys.argv[1])
    print('load %.1f' % (time.time() - t))
    for f in sorted(mod.funcs):
        if f.startswith(sys.argv[2]):
            I, sts = analyse(mod, f)
            print(f, {k: (len(v) if isinstance(v, set) else v) for k, v in I.stats.items()})
            by = {}
            for s in sts:
                by[s.status] = by.get(s.status, 0) + 1
            print('  ', by, 'covered', sorted(x for x in I.covered if not x.startswith('assert')))
            seen = {}
            for s in sts:
                for m, tn in s.viol:
                    seen.setdefault((m, tn), [0, s])[0] += 1
            for (m, tn), (n, s) in list(seen.items())[:20]:
                print('   %s x%d: %s' % ('taint' if tn else 'VIOL', n, m))
                if '-v' in sys.argv:
                    for e in s.events():
                        print('        ', e[0], list(e[1]) if len(e) > 1 and isinstance(e[1], (list, tuple)) else e[1:2], '->', e[2] if len(e) > 2 else '')
            unk = {}
            for s in sts:
                for u in s.unknown:
                    unk[u] = unk.get(u, 0) + 1
            if unk:
                print('   unknown', unk)
            for s in sts:
                if s.status not in ('ret',):
                    print('   status', s.status, s.exc and s.exc['type'], s.exc and s.exc['where'])
                    break
