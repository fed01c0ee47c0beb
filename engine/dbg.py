"""Debug helper: python3 dbg.py NAME-substring [-v]"""
import sys, json, time
import interp, models
from terms import *
F = __import__('yv').load_facts()[0]

def roots(pat):
    return [r for r in F['roots'] if pat in r['key']]

def run(key, **kw):
    E = interp.Engine(F, models, **kw)
    body = E.fns[key]
    args = [E.mk(("arg", i), body['locals'][i + 1]) for i in range(body['argc'])]
    st = E.start(key, args)
    outs = E.run(st)
    return E, outs

if __name__ == '__main__':
    v = '-v' in sys.argv
    for pat in [a for a in sys.argv[1:] if not a.startswith('-')]:
        for r in roots(pat):
            t = time.time()
            try:
                E, outs = run(r['key'])
            except Exception as e:
                import traceback
                print(r['key'], 'EXC', repr(e)[:300]); 
                if v: traceback.print_exc()
                continue
            from collections import Counter
            c = Counter(o.kind for o in outs)
            bad = [o for o in E.obligations if not o[0]]
            print(r['key'], dict(c), 'obl', len(E.obligations), 'bad', len(bad), 'loops', len(E.loops), 'states', E.nstates, '%.2fs' % (time.time() - t), 'unmodelled', list(E.unmodelled))
            for o in outs:
                if v or o.kind in ('unsupported','panic'):
                    print('   ', o.kind, o.msg, o.span, repr(o.value)[:300])
                    if o.kind!='ret': print('        ', ' > '.join(o.stack[-3:]))
                    if v: print('       facts', o.state.facts.show()[:600])
            for o in bad:
                print('    OBL', o[1:5])
