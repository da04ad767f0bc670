"""debug: pretty-print the MIR facts of functions whose path contains a substring"""
import json,sys
d=json.load(open(sys.argv[1]))
def ty(t):
    k=t['k']
    if k=='prim': return t['n']
    if k=='adt': return t['p'].split('::')[-1]+('<'+','.join(map(ty,t['a']))+'>' if t['a'] else '')
    if k=='ref': return '&'+('mut ' if t['m'] else '')+ty(t['t'])
    if k=='param': return t['n']
    if k=='tuple': return '('+','.join(map(ty,t['a']))+')'
    if k in('slice','array'): return '['+ty(t['t'])+']'
    if k=='fndef': return t['p']
    if k=='closure': return 'clo:'+t['p'].split('::',1)[1]
    return t.get('n','?')
def pl(p):
    s='_%d'%p['l']
    for e in p['p']:
        if e[0]=='deref': s='(*%s)'%s
        elif e[0]=='field': s+='.%d'%e[1]
        elif e[0]=='downcast': s+=' as %s'%e[2]
        else: s+=str(e)
    return s
def op(o):
    if o['k'] in('copy','move'): return pl(o['pl'])
    if o['k']=='const': return 'const '+(ty(o['ty']) if 'v' not in o else json.dumps(o['v']))+(' promoted%d'%o['promoted'] if 'promoted' in o else '')
    return str(o)
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&'+('mut ' if r['m'] else '')+pl(r['pl'])
    if k in('bin',): return '%s(%s,%s)'%(r['op'],op(r['a']),op(r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op(r['o']))
    if k=='discr': return 'discr(%s)'%pl(r['pl'])
    if k=='agg': return 'agg %s %s %s(%s)'%(r['g'],r.get('p',''),r.get('vn',''),','.join(map(op,r['f'])))
    if k=='cast': return 'cast[%s](%s) as %s'%(r['ck'],op(r['o']),ty(r['ty']))
    return json.dumps(r)
for f in d['fns']:
    if sys.argv[2] not in f['p']: continue
    if len(sys.argv)>3 and sys.argv[3]!=f['p'].split('::')[-1]: continue
    print('==',f['p'],f['u'],f['file'],f['ln'])
    b=f['body']
    if not b: continue
    print('  locals',', '.join('_%d:%s%s'%(i,ty(l['ty']),'='+l['n'] if l['n'] else '') for i,l in enumerate(b['locals'])))
    for i,x in enumerate(b['blocks']):
        if x['cleanup']: continue
        print('  bb%d:'%i)
        for s in x['s']:
            if 'rv' in s: print('    %s = %s'%(pl(s['pl']),rv(s['rv'])))
            else: print('    ',s)
        t=x['t']; k=t['k']
        if k=='call': print('    %s = %s(%s) -> %s   [%s]'%(pl(t['d']),op(t['f']),', '.join(map(op,t['args'])),t['t'],t['ln']))
        elif k=='switch': print('    switch %s %s else %s'%(op(t['o']),t['ts'],t['else']))
        elif k=='assert': print('    assert %s==%s %s -> %s'%(op(t['o']),t['e'],t['m'],t['t']))
        elif k=='drop': print('    drop %s -> %s'%(pl(t['pl']),t['t']))
        else: print('    ',t)
