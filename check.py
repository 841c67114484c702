#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

usage: check.py ID [--tier quick|thorough]

Every driver `ID_*` of the property's area (engine/drv/<area>.cc) is analysed together with the library's
LLVM IR, compiled afresh from /repo; the driver is never linked or run.  Exit 0: no violation; 1: at least
one path breaks the property; 2: the analysis could not be carried out (anchors gone, IR does not build)."""
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import props          # noqa: E402

MOD = None


def lib_where(e):
    return e[3] if len(e) > 3 and isinstance(e[3], str) else ''


def fmt_trace(s):
    out = []
    for e in s.events():
        if e[0] in ('assert', 'vf_reset', 'delete', 'new', 'memset', 'memcpy', 'cstring', 'strlen'):
            continue
        args = ', '.join(str(x) for x in e[1]) if len(e) > 1 and isinstance(e[1], (list, tuple)) else str(e[1:2])
        out.append('%s(%s) -> %s   at %s' % (e[0], args, e[2] if len(e) > 2 else '', lib_where(e)))
    return out


def work(job):
    fname, tier, limit = job
    import interp
    import models
    import models_std    # noqa: F401
    import models_thr    # noqa: F401
    import models_proc   # noqa: F401
    import rules
    t0 = time.time()
    r = {'driver': fname, 'viol': [], 'undecided': {}, 'status': {}, 'covered': [], 'error': None}
    try:
        if fname.startswith('rule:'):
            return rules.run(MOD, fname[5:], r)
        I = interp.Interp(MOD, models.M)
        I.deadline = t0 + limit
        if tier == 'thorough':
            I.deep = True
            I.unroll = 3
            I.MAX_STATES = 200000
            I.MAX_STEPS = 40000000
        sts = I.run(I.start(fname, []))
    except interp.EngineError as e:
        r['gaveup'] = 'analysis gave up: %s' % e
        r['viol'] = [{'msg': m, 'paths': 1, 'trace': fmt_trace(s)} for m, s in I.found.items()]
        r['time'] = time.time() - t0
        return r
    except Exception as e:
        r['error'] = 'analysis failed: %s' % traceback.format_exc(limit=-4)
        r['time'] = time.time() - t0
        return r
    seen = {}
    und = {}
    for s in sts:
        bad = list(s.viol)
        if s.status not in ('ret', 'stop', 'blocked'):
            what = {'throw': 'an exception leaves the analysed operation', 'terminate': 'the program is terminated',
                    'abort': 'the program is aborted', 'unreachable': 'execution runs into undefined behaviour',
                    'exit': 'the process is ended', '_exit': 'the process is ended', 'exec': 'the process becomes another program'}.get(s.status, s.status)
            if s.status == 'throw' and s.exc:
                what += ' (%s thrown at %s)' % (s.exc['type'], s.exc['where'])
            bad.append((what, s.widened or bool(s.unknown)))
        for msg, weak in bad:
            if weak:
                und[msg] = und.get(msg, 0) + 1
            elif msg not in seen:
                seen[msg] = {'msg': msg, 'paths': 1, 'trace': fmt_trace(s)}
            else:
                seen[msg]['paths'] += 1
        r['status'][s.status] = r['status'].get(s.status, 0) + 1
    r['viol'] = list(seen.values())
    r['undecided'] = und
    req = props.required_covers(MOD, fname)
    missing = sorted(c for c in req if c not in I.covered)
    exact = not any(s.unknown for s in sts)
    r['paths'] = len(sts)
    r['exact_paths'] = sum(1 for s in sts if not s.widened and not s.unknown)
    r['generalised_paths'] = sum(1 for s in sts if s.widened)
    r['tainted_paths'] = sum(1 for s in sts if s.unknown)
    r['unknown'] = {k: v for k, v in I.stats['unknown'].items()}
    r['missing'] = missing
    if not sts or (missing and not r['viol']):
        if exact:
            for c in missing or ['the end of the driver']:
                r['viol'].append({'msg': 'no execution can reach the outcome "%s" of %s' % (c, fname), 'paths': 0, 'trace': []})
        else:
            r['gaveup'] = 'outcomes never reached and not decidable: %s' % ', '.join(missing)
    r['covered'] = sorted(x for x in I.covered if not x.startswith('assert'))
    r['asserts'] = sorted(x[8:] for x in I.covered if x.startswith('assert: '))
    r['assert_evals'] = I.stats.get('asserts', 0)
    st = I.stats
    r['stats'] = {k: (len(v) if isinstance(v, (set, dict)) else v) for k, v in st.items()}
    r['functions'] = sorted(f for f in st['functions'])
    r['time'] = time.time() - t0
    return r


AFTER = 90


def analyse(jobs, spec):
    """all drivers, in parallel; once one of them has found a violation the others get AFTER seconds more"""
    with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
        todo = {j[0]: pool.apply_async(work, (j,)) for j in jobs}
        done, stop = {}, None
        while todo:
            for n in [n for n, x in todo.items() if x.ready()]:
                done[n] = todo.pop(n).get()
                rx = next((rx for pat, rx in spec.get('also', {}).items() if re.fullmatch(pat, n)), None)
                if stop is None and any(rx is None or re.search(rx, v['msg']) for v in done[n]['viol']):
                    stop = time.time() + AFTER
            if stop is not None and time.time() > stop:
                for n in todo:
                    done[n] = {'driver': n, 'viol': [], 'undecided': {}, 'status': {}, 'covered': [], 'error': None, 'time': 0,
                               'gaveup': 'analysis gave up: another driver had found a violation'}
                break
            if todo:
                time.sleep(0.05)
        pool.terminate()
    return [done[j[0]] for j in jobs]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = props.PROPS[pid]
    global MOD
    import ir
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    results = []
    units = []
    mods = {}
    for area in spec['areas']:
        try:
            mods[area] = ir.load(area)
        except Exception as e:
            print('ERROR property=%s cannot build the IR of area %s: %s' % (pid, area, e))
            return 2
        units += mods[area].sources if hasattr(mods[area], 'sources') else []
    limit = 600 if tier == 'quick' else 3600
    total_fn = 0
    for area, mod in mods.items():
        MOD = mod
        jobs = sorted(f for f in mod.funcs if f.startswith(pid + '_'))
        for pat in sorted(spec.get('also', {})):
            jobs += sorted(f for f in mod.funcs if re.fullmatch(pat, f))
        jobs += ['rule:' + x for x in spec.get('rules', {}).get(area, [])]
        jobs = [(j, tier, limit) for j in jobs]
        if not jobs:
            print('ERROR property=%s no driver in area %s' % (pid, area))
            return 2
        total_fn = max(total_fn, len(props.lib_functions(mod)))
        results += analyse(jobs, spec)
    for r in results:       # of another property's driver, only the obligations this property implies
        keep = next((rx for pat, rx in spec.get('also', {}).items() if re.fullmatch(pat, r['driver'])), None)
        if keep:
            r['viol'] = [v for v in r['viol'] if re.search(keep, v['msg'])]
            r['undecided'] = {m: n for m, n in r['undecided'].items() if re.search(keep, m)}
            r['asserts'] = [a for a in r.get('asserts', []) if re.search(keep, a)]
    known = props.known_findings(HERE, pid)
    nviol = 0
    err = False
    listed = []
    for r in results:
        name = r['driver']
        print('%-24s paths=%s exact=%s generalised=%s tainted=%s asserts=%s time=%.1fs' % (
            name, r.get('paths', 0), r.get('exact_paths', 0), r.get('generalised_paths', 0), r.get('tainted_paths', 0),
            r.get('assert_evals', 0), r.get('time', 0)))
        if r['error']:
            print('ERROR property=%s driver=%s %s' % (pid, name, r['error']))
            err = True
        if r.get('gaveup'):
            print('UNDECIDED property=%s driver=%s %s' % (pid, name, r['gaveup']))
            r['undecided'][r['gaveup']] = 1
        for msg, n in sorted(r['undecided'].items()):
            print('  undecided (only on generalised paths) x%d: %s' % (n, msg))
        for v in r['viol']:
            k = props.match_finding(known, name, v['msg'])
            if k:
                print('KNOWN-FINDING: property=%s %s' % (pid, k))
                listed.append(k)
                continue
            nviol += 1
            path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.txt' % (pid, nviol))
            with open(path, 'w') as f:
                f.write('property: %s\ndriver: %s\nviolated: %s\npaths: %d\n\nabstract path (library calls in order):\n' % (pid, name, v['msg'], v['paths']))
                f.write('\n'.join('  ' + x for x in v['trace']) + '\n')
            print('  violated: %s (%s)' % (v['msg'], name))
            print('VIOLATION property=%s replay=%s' % (pid, path))
    drv = [r for r in results if 'stats' in r]
    fns = set(f for r in drv for f in r.get('functions', []))
    libf = set()
    for m in mods.values():
        libf |= props.lib_functions(m)
    cov = {
        'explanation': spec['explanation'],
        'rule': 'a driver path violates when an assertion on the observable effects fails, memory is accessed outside its object, '
                'a lock is misused, or the path ends in an uncaught exception or program end; only paths that involve no '
                'generalised loop state and no unmodelled call raise an alarm',
        'evaluations': sum(r.get('assert_evals', 0) for r in results),
        'distinct_nontrivial': sum(r.get('exact_paths', 0) for r in results),
        'drivers': len(results),
        'paths': sum(r.get('paths', 0) for r in results),
        'generalised_paths': sum(r.get('generalised_paths', 0) for r in results),
        'tainted_paths': sum(r.get('tainted_paths', 0) for r in results),
        'obligations': sorted(set('%s: %s' % (r['driver'], a) for r in results for a in r.get('asserts', []))),
        'library_functions_analysed': sorted(props.pretty(m, fns & libf) for m in list(mods.values())[:1])[0] if mods else [],
        'instructions': sum(r['stats']['instr'] for r in drv),
        'call_sites': sum(r['stats']['calls'] for r in drv),
        'memory_accesses': sum(r['stats'].get('accesses', 0) for r in drv),
        'loops': sum(r['stats']['loops'] for r in drv),
        'fixpoints': sum(r['stats']['fixpoints'] for r in drv),
        'loops_not_generalised': sum(r['stats'].get('giveup', 0) for r in drv),
        'rule_instances': {r['driver']: r.get('instances') for r in results if 'instances' in r},
        'undecided': sorted(set('%s: %s' % (r['driver'], m) for r in results for m in r['undecided'])),
        'unmodelled_calls': sorted(set(u for r in results for u in r.get('unknown', {}))),
        'outcomes_reached': sorted(set('%s: %s' % (r['driver'], a) for r in results for a in r.get('covered', []))),
        'samples': [{'driver': r['driver'], 'asserts': r.get('asserts', [])[:6], 'paths': r.get('paths')} for r in results[:6]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': props.ASSUMPTIONS + spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 3), 'violations': nviol}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d drivers, %d paths, %d library functions, %d violations, %.1f s' % (
        pid, len(results), cov['paths'], len(cov['library_functions_analysed']), nviol, time.time() - t0))
    if nviol:
        return 1
    return 2 if err or all(r.get('gaveup') for r in results) else 0


if __name__ == '__main__':
    sys.exit(main())
