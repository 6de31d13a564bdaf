import sys, time
sys.path.insert(0,'/verif/sv')
import engine, lin
P=engine.Prog(sys.argv[1]); mode=sys.argv[2]
for n in sorted(P.roots):
    n=n.split('::',1)[1]
    if len(sys.argv)>3 and not any(a in n for a in sys.argv[3:]): continue
    E=engine.Engine(P,mode); t=time.time()
    E.run(n)
    print('%-40s %.2fs'%(n,time.time()-t), E.stats, dict(lin.STATS), E.notes or '')
    for v in E.violations.values():
        print('   V', v.tag,'|',v.rule,'|',v.msg,'|',v.site, v.writer or ''); 
        for s in v.stack[:8]: print('        at',s)
        for s in v.trace[-12:]: print('        ..',s)
    for i in E.inconclusive: print('   ?',i)
