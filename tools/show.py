import json,sys
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='.': s+='.'+e[1]
        elif e[0]=='as': s='(%s as %s)'%(s,e[1])
        elif e[0]=='[]': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o['k'] in('copy','move'): return ('' if o['k']=='copy' else 'move ')+pl(o['p'])
    if 'fn' in o: 
        f=o['fn']; return 'FN '+f['path']+(' => '+f['rpath'] if 'rpath' in f else '')+(' <%s>'%','.join(f['args']) if f.get('args') else '')
    for k in('v','str','bytes','promoted','item','closure'):
        if k in o: return '%s:%r'%(k,o[k])
    return str(o)
def rv(r):
    k=r['k']
    if k=='use': return op(r['a'])
    if k=='ref': return '&'+('mut ' if r['mut'] else '')+pl(r['p'])
    if k=='agg': return 'AGG %s %s{%s}'%(r.get('adt',r.get('id',r['ak'])),r.get('variant',''),', '.join(map(op,r['ops'])))
    if k=='bin': return '%s %s %s'%(op(r['a']),r['op'],op(r['b']))
    if k=='un': return '%s %s'%(r['op'],op(r['a']))
    if k=='discr': return 'discr(%s) %s'%(pl(r['p']),r['adt'])
    if k=='cast': return 'cast[%s] %s as %s'%(r['ck'],op(r['a']),r['ty'])
    return str(r)
def show(b):
    print('##',b['id'],'|',b['path'],b['kind'],b['file'],b['line'],'argc',b['argc'],{k:b[k] for k in('implself','impltrait','vis','intrait') if k in b})
    print('  vars',[(n,pl(p)) for n,p in b['vars']])
    for i,l in enumerate(b['locals']): print('   _%d: %s'%(i,l))
    for i,bb in enumerate(b['bbs']):
        if bb['cl']: continue
        print('  bb%d:'%i)
        for s in bb['s']:
            if s[0]=='=': print('     %s = %s   @%s'%(pl(s[1]),rv(s[2]),s[3][0]))
            elif s[0]=='dead': pass
            else: print('    ',s)
        t=bb['t'];k=t['k']
        if k=='call': print('     %s = CALL %s(%s) -> %s'%(pl(t['d']),op(t['f']),', '.join(map(op,t['args'])),t['t']))
        elif k=='switch': print('     SWITCH %s %s else %s'%(op(t['d']),t['ts'],t['o']))
        elif k=='drop': print('     DROP %s : %s -> %s'%(pl(t['p']),t['ty'],t['t']))
        elif k=='assert': print('     ASSERT %s %s %s [%s] -> %s'%(op(t['c']),t['e'],t['m'],', '.join(map(op,t['ops'])),t['t']))
        else: print('    ',t)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if any(a in b['id'] or a in b['path'] for a in sys.argv[2:]): show(b)
    if len(sys.argv)==2:
        for b in d['bodies']: print(b['kind'],b['id'],b['path'],b['file'],b['line'])
