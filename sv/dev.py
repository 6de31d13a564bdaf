"""Development runner: dev.py BIN MODE [filter...]"""
import sys, time
sys.path.insert(0, '/verif/sv')
import build, engine, lin
from multiprocessing import Pool
b, mode = sys.argv[1:3]
filt = sys.argv[3:]
def one(n):
    E = engine.Engine(P, mode); t = time.time()
    E.run(n)
    return n, time.time() - t, E.stats, list(E.violations.values()), E.inconclusive, E.notes
modes = ['debug', 'release'] if mode == 'both' else [mode]
for mode in modes:
    r, log = build.dump([b], mode)
    if r[b] is None:
        print(log); sys.exit(1)
    P = engine.Prog(r[b])
    names = [n.split('::', 1)[1] for n in sorted(P.roots)]
    names = [n for n in names if not filt or any(a in n for a in filt)]
    with Pool(8) as pool:
        for n, dt, stats, vs, inc, notes in pool.imap(one, names):
            print('%-44s %-7s %.2fs paths %d obl %d forks %d panics %d reach %s %s' % (n, mode, dt, stats['paths'], sum(stats['obl'].values()), stats['forks'], stats['panics'], stats.get('reach', ''), notes or ''))
            for v in vs:
                print('   V', v.tag, '|', v.rule, '|', v.msg, '|', v.site, v.writer or '')
                for s in v.stack[:8]: print('        at', s)
                for s in v.trace[-12:]: print('        ..', s)
            for i in inc[:3]: print('   ?', i[:400])
