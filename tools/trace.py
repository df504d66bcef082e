"""tools/trace.py BODY_ID: print the abstract paths of a function"""
import sys; sys.path.insert(0,'/verif')
from gk import facts, interp
from gk.terms import *
F=facts.load()
class R(interp.Rule):
    budget=60000
    def on_ret(s,st,v): print('RET',show(v)[:300],'MON',st.mon); print('    ', {show(k)[:60]:f for k,f in list(st.facts.items())[:14]})
    def on_diverge(s,st,p,a,bb): print('DIV',p,[show(x) for x in a])
    def opaque(s,p,b): return any(p.endswith(x) or b['path'].endswith(x) for x in sys.argv[2:])
for b in [x for x in F.bodies.values() if x['id'].endswith(sys.argv[1]) or x['path'].endswith(sys.argv[1])]:
    r=R(); ip=interp.Interp(F,r)
    print('##',b['id'])
    try: ip.run(ip.start(b, ip.root_args(b)))
    except interp.Budget as e: print('BUDGET',e)
    print('steps',ip.steps,'paths',ip.paths,'opaque',ip.opaque_seen)
