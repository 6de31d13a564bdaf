"""check.py PROPERTY: decides one property of /repo's current source.

Exit 0: property holds of everything analysed. Exit 1 and `VIOLATION property=.. replay=..`.
"""
import gc
import json
import os
import resource
import signal
import sys
import time
import traceback
from multiprocessing import Pool, TimeoutError

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import engine  # noqa: E402
import groups  # noqa: E402

VERIF = build.VERIF
MODES = ('debug', 'release')
PROGS = {}
PER_PROBE = 400  # seconds
TOTAL = 700
MEMORY = 3 << 30  # of each of 8 processes


def prog(path):
    if path not in PROGS:
        PROGS.clear()
        PROGS[path] = engine.Prog(path)
    return PROGS[path]


def vdict(v):
    return {'tag': v.tag, 'rule': v.rule, 'msg': v.msg, 'site': v.site, 'stack': v.stack, 'trace': v.trace,
            'probe': v.probe, 'mode': v.mode, 'writer': v.writer and str(v.writer)}


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


class OutOfTime(BaseException):
    pass


def out_of_time(*_):
    raise OutOfTime()


def task(a):
    b, mode, path, name, end = a
    t = time.time()
    try:
        E = engine.Engine(prog(path), mode)
        try:
            signal.signal(signal.SIGALRM, out_of_time)
            signal.setitimer(signal.ITIMER_REAL, max(0.05, min(PER_PROBE, end - time.time())))
            E.run(name)
        except OutOfTime:
            E.inconclusive.append('out of time')
        except MemoryError:
            E.work = E.st = None
            gc.collect()
            E.inconclusive.append('out of memory')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return {'bin': b, 'mode': mode, 'probe': name, 'wall': time.time() - t, 'stats': E.stats,
                'violations': [vdict(v) for v in E.violations.values()], 'inconclusive': E.inconclusive,
                'fns': sorted(E.p.fns[i].name for i in E.fns_seen if E.p.fns[i].repo and '/verif/' not in E.p.fns[i].file)}
    except Exception:
        return nothing(b, mode, name, 'internal error: ' + traceback.format_exc()[-800:])


def analyse(prop, bins, start, modes=MODES):
    tasks, compile_errors = [], []
    for mode in modes:
        dumps, log = build.dump(bins, mode)
        for b in bins:
            if dumps[b] is None:
                errs = [l for l in log.splitlines() if l.startswith('error')][:5]
                compile_errors.append((b, mode, errs, log[-3000:]))
                continue
            for name in build.idx(dumps[b])['roots']:
                if not groups.wanted(prop, b, name):
                    continue
                tasks.append((b, mode, dumps[b], name, start + TOTAL))
    with Pool(min(8, os.cpu_count() or 1), limit) as pool:
        res, bad = [], False
        it = pool.imap_unordered(task, tasks)
        while True:
            try:
                r = it.next(max(1, start + TOTAL + 30 - time.time()))
            except StopIteration:
                break
            except TimeoutError:
                res.append(nothing('*', '*', '*', 'analyses are missing: a process did not answer'))
                break
            res.append(r)
            bad = bad or any(groups.violates(v, prop, r['bin'], r['probe']) for v in r['violations'])
            if bad and time.time() - start > 150:
                # Enough is known
                res.append(nothing(r['bin'], r['mode'], '*', 'stopped early: violation found already'))
                break
        pool.terminate()
    res.sort(key=lambda r: (r['bin'], r['mode'], r['probe']))
    return res, compile_errors


def nothing(b, mode, probe, why):
    return {'bin': b, 'mode': mode, 'probe': probe, 'wall': 0, 'stats': {'paths': 0, 'stmts': 0, 'forks': 0, 'obl': {}, 'panics': 0},
            'violations': [], 'inconclusive': [why], 'fns': []}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    bins = groups.bins_of(prop, tier)
    violations = []
    infos = {}
    try:
        res, compile_errors = analyse(prop, bins, t0) if bins else ([], [])
    except build.BuildError as e:
        # Everything under /repo is built by the step above; driver itself doesn't depend on /repo
        print(e.log[-4000:])
        print('error: %s' % e.what)
        sys.exit(2)
    for b, mode, errs, log in compile_errors:
        violations.append({'tag': prop, 'rule': 'probe `%s` no longer compiles (%s)' % (b, mode), 'site': 'probe/src/bin/%s.rs' % b,
                           'msg': ' / '.join(errs), 'stack': [], 'trace': log.splitlines()[-40:], 'probe': b, 'mode': mode, 'writer': None})
    obl, other, paths, stmts, forks, panics, loops, inconcl = 0, 0, 0, 0, 0, 0, 0, []
    rules_cov = {}
    fns = set()
    reach = {}
    for r in res:
        s = r['stats']
        obl += sum(n for k, n in s['obl'].items() if groups.of_prop(k, prop, r['bin'], r['probe']))
        loops += s.get('loops', 0)
        other += sum(v for k, v in s['obl'].items() if k in groups.AUTO)
        paths += s['paths']
        stmts += s['stmts']
        forks += s['forks']
        panics += s['panics']
        fns |= set(r['fns'])
        inconcl += ['%s/%s: %s' % (r['probe'], r['mode'], i) for i in r['inconclusive']]
        for k, v in s.get('reach', {}).items():
            reach[k] = reach.get(k, 0) + v
        for v in r['violations']:
            if groups.violates(v, prop, r['bin'], r['probe']):
                violations.append(v)
    if groups.RULES.get(prop):
        import rules
        for name in groups.RULES[prop]:
            n, vs, info = getattr(rules, name)()
            obl += n
            rules_cov[name] = {'obligations': n, **info}
            for v in vs:
                v.setdefault('tag', prop)
                for k in ('stack', 'trace'):
                    v.setdefault(k, [])
                for k in ('probe', 'mode', 'writer', 'msg'):
                    v.setdefault(k, None)
                violations.append(v)
    if not inconcl and not compile_errors:
        want = set()
        for b in bins:
            want |= set(build.idx(os.path.join(build.dump_dir(MODES[0]), b + '.json'))['reach'])
        for l in sorted(want - set(reach)):
            t = groups.tags(l.split(':')[0])
            if t is None or prop in t:
                violations.append({'tag': prop, 'rule': 'case is no longer reachable: ' + l, 'site': 'probe', 'msg': None, 'stack': [],
                                   'trace': [], 'probe': None, 'mode': None, 'writer': None})
        if obl == 0:
            violations.append({'tag': prop, 'rule': 'no obligation of this property was generated', 'site': 'probe', 'msg': None,
                               'stack': [], 'trace': [], 'probe': None, 'mode': None, 'writer': None})
    # Known findings
    known = load_known(prop)
    fresh, seen = [], set()
    keys = set()
    for v in violations:
        k = key(v)
        if k in keys:
            continue
        keys.add(k)
        if k in known:
            if k not in seen:
                seen.add(k)
                print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
            continue
        fresh.append(v)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + '.txt')
    if fresh:
        with open(rp, 'w') as f:
            for v in fresh:
                f.write(render(prop, v) + '\n')
    elif os.path.exists(rp):
        os.unlink(rp)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
        'coverage': {
            'explanation': 'Structural rules over the current source, see structural_rules; nothing was executed.' if not bins else 'Abstract interpretation of the MIR of /repo (as compiled on this run), inlined into specification probes; '
                           'every obligation below was discharged on every abstract path, nothing was executed.',
            'obligations': obl, 'discharged': obl - min(obl, len(fresh)),
            'memory_and_panic_obligations': other,
            'abstract_paths': paths, 'mir_statements_interpreted': stmts, 'state_splits': forks, 'panic_paths': panics, 'loops_generalised': loops,
            'probes': sorted({r['probe'] for r in res}), 'modes': sorted({r['mode'] for r in res}),
            'functions_of_repo_analysed': sorted(fns)[:400], 'functions_of_repo_count': len(fns),
            'reached_cases': reach, 'structural_rules': rules_cov, 'inconclusive': inconcl[:50],
            'checker_cmd': './check.sh ' + prop,
            'trusted_base': ['rustc MIR construction', 'driver/ (MIR dumper)', 'sv/engine.py, sv/lin.py, sv/intrinsics.py (abstract semantics)',
                             'probe/ (specifications)'],
            'samples': [{'probe': r['probe'], 'mode': r['mode'], 'obligations': r['stats']['obl'], 'paths': r['stats']['paths']} for r in res[:12]],
        },
        'assumptions': groups.ASSUME,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for i in inconcl[:20]:
        print('INCONCLUSIVE %s' % i[:500])
    print('%s: %d obligations, %d memory-safety obligations, %d paths through %d functions of /repo, %d probe analyses, %d violations, %d inconclusive, %.1fs'
          % (prop, obl, other, paths, len(fns), len(res), len(fresh), len(inconcl), time.time() - t0))
    for v in fresh[:8]:
        print(render(prop, v, 6))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)


def key(v):
    return '%s | %s | %s' % (v['tag'], v['rule'], v['site'])


def render(prop, v, depth=40):
    out = ['%s violated: %s' % (prop, v['rule']), '  in %s  (rule %s, probe %s, %s)' % (v['site'], v['tag'], v['probe'], v['mode'])]
    if v['msg']:
        out.append('  ' + str(v['msg'])[:600])
    if v['writer']:
        out.append('  written by %s' % v['writer'])
    out += ['    at ' + s for s in v['stack'][:depth]]
    out += ['    .. ' + str(s)[:300] for s in v['trace'][-depth:]]
    return '\n'.join(out)


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            # known: property=<id> key=<tag | rule | site> :: <what fails>
            if l.startswith('known: property=%s ' % prop):
                k, _, what = l.partition(' :: ')
                out[k.split(' key=', 1)[1]] = what
    return out


if __name__ == '__main__':
    main()
