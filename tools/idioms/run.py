"""Development: the engine against the interpreter on common Python, one function per idiom.
usage: python3-vt tools/idioms/run.py [function...]; prints only what differs."""
import sys,os,time,importlib,warnings
HERE=os.path.dirname(os.path.abspath(__file__))
warnings.simplefilter('ignore')
sys.path.insert(0,os.path.dirname(os.path.dirname(HERE)))
from vf import hook,core,values,symio,symctx,ops
from vf.core import *
from vf.ctx import canon
sys.path.insert(0,HERE)
import idi as real
R={k:getattr(real,k) for k in dir(real) if k[:2] in ('f_','g_')}
for k in [k for k in sys.modules if k.split('.')[0]=='idi']: del sys.modules[k]
hook.install({'idi':HERE})
import idi
A='aB1 -,'
want=sys.argv[1:]
for name in R:
    if want and name not in want: continue
    t0=time.time(); e=Engine(deadline=time.time()+25); Engine.current=e
    n=0; bad=[]; uns={}
    while True:
        e.start_path(); symio.reset(); c=symctx.SymCtx(None,[])
        try:
            s=c.s('s',(A,2)); t=c.s('t',(A,)); i=c.i('n',-1,3); b=c.b('b')
            try: out=getattr(idi,name)(s,t,i,b)
            except Exception as x: out=('EXC',type(x).__name__, str(x) if type(x).__name__ not in('ValueError','KeyError','AssertionError','IndexError','LookupError') else '')
            if not e.dead:
                m=e.feasible_model()
                args=[symctx.model_value(v,m) for v in (s,t,i,b)]
                try: w=R[name](*args)
                except Exception as x: w=('EXC',type(x).__name__,'')
                g=symctx.model_value(symctx.snap(out),m)
                if canon(g)!=canon(w): bad.append((args,g,w))
                n+=1
        except Unsupported as x: uns[str(x)]=uns.get(str(x),0)+1
        except BaseException as x:
            if type(x).__name__=='DeadPath': pass
            else:
                import traceback
                uns[repr(x)[:100]+traceback.format_exc().splitlines()[-2][:100]]=1
        if e.dead and e.dead not in('assume','infeasible'): uns[e.dead]=1
        if len(bad)>2 or sum(uns.values())>20 or time.time()>e.deadline or not e.next_path(): break
    if bad or uns or e.undecided or time.time()>e.deadline: print(name,n,'paths',round(time.time()-t0,1)); 
    for x in bad[:2]: print('   BAD',x[0],'\n      got ',x[1],'\n      want',x[2])
    for x in list(uns.items())[:3]: print('   UNS',x)
    if e.undecided: print('   UND',e.undecided[:2])
