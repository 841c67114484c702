import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, interp, models, models_std, models_thr, run
mod=ir.load(sys.argv[1])
I,sts=run.analyse(mod,sys.argv[2])
n=int(sys.argv[3]) if len(sys.argv)>3 else 1
vs='-v' in sys.argv
if vs: sts=[s for s in sts if s.viol]
st=[a[2:] for a in sys.argv if a.startswith('s=')]
if st: sts=[s for s in sts if s.status==st[0]]
for s in sts[:n]:
    print('=====',s.status,s.exc and s.exc['type'],s.viol,s.unknown,s.widened)
    for e in s.events(): print('   ',e[0],[str(x) for x in e[1]] if len(e)>1 and isinstance(e[1],(list,tuple)) else e[1:2],'->',e[2] if len(e)>2 else '',e[3] if len(e)>3 else '', {k:v for k,v in (e[4] or {}).items() if k!='functor'} if len(e)>4 else '')
    if '-f' in sys.argv: print('  facts',s.facts.ge,s.facts.ne,s.facts.eq)
print(I.stats['unknown'])
