import sys; sys.path.insert(0,'/verif/engine')
import ir, interp, models, models_std, models_thr, run, collections
interp.Interp.MAX_STATES=3000
mod=ir.load(sys.argv[1])
C=collections.Counter()
o=interp.Interp.fork
def fork(self,s,c):
    t,f=o(self,s,c)
    if t and f:
        fr=s.frames[-1]; C[(self.where(s),mod.dem(fr.fn.name)[:60],str(c)[:90])]+=1
    return t,f
interp.Interp.fork=fork
import loops
og=loops.generalise
def gen(I,fr,sc):
    s=fr[0]; print('GEN',len(fr),mod.dem(s.frames[-1].fn.name)[:150],I.where(s))
    return og(I,fr,sc)
loops.generalise=gen
try:
    I,sts=run.analyse(mod,sys.argv[2])
    print(len(sts))
except Exception as e: print(e)
for k,v in C.most_common(25): print(v,k)
