import sys,time,json,signal
from dbg import *
from collections import Counter
import interp
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
for r in F['roots']:
    if len(sys.argv)>1 and not any(a in r['key'] for a in sys.argv[1:]): continue
    t=time.time(); signal.alarm(20)
    try:
        E,outs=run(r['key'],max_states=20000)
        c=Counter(o.kind for o in outs)
        bad=[o for o in E.obligations if not o[0]]
        msgs=Counter(o.msg[:90] for o in outs if o.kind in('unsupported','panic'))
        print('OK ' if not msgs and not bad else '-- ',r['key'],dict(c),'bad',len(bad),'L',len(E.loops),'%.1f'%(time.time()-t),dict(msgs.most_common(3)),list(E.unmodelled)[:3],flush=True)
    except TO: print('XX ',r['key'],'timeout',flush=True)
    except Exception as e: print('XX ',r['key'],repr(e)[:200],flush=True)
    finally: signal.alarm(0)
