import json,glob,sys,os
def pl(p):
    if isinstance(p,int): return f"_{p}"
    s=f"_{p[0]}"
    for e in p[1]:
        if e[0]=='deref': s=f"(*{s})"
        elif e[0]=='field': s+=f".{e[1]}"
        elif e[0]=='as': s+=f"@{e[1]}"
        elif e[0]=='index': s+=f"[_{e[1]}]"
        else: s+=str(e)
    return s
def op(o):
    if 'c' in o: return pl(o['c'])
    if 'm' in o: return 'move '+pl(o['m'])
    k=o['k']
    if k['k']=='fn': return 'fn '+k.get('rpath',k['path'])+('' if 'rpath' not in k else ' [res]')+'<'+','.join(k['targs'])[:80]+'>'
    if k['k']=='named': return 'const '+k['path']
    return f"{k['k']}:{k.get('v',k.get('s'))!r}"+(' ='+k['name'] if 'name' in k else '')
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return ('&mut ' if r[1] else '&')+pl(r[2])
    if r[0]=='agg': return f"{r[1]} ("+', '.join(map(op,r[2]))+")"
    if r[0]=='bin': return f"{r[1]}({op(r[2])},{op(r[3])})"
    if r[0]=='un': return f"{r[1]}({op(r[2])})"
    if r[0]=='discr': return f"discr({pl(r[1])}) {r[2][:60]}"
    if r[0]=='cast': return f"cast {r[1][:20]} {op(r[2])} as {r[3][:60]}"
    return str(r)
def show(b):
    print('##',b['path'],b['id'],b['kind'],b['span'],'argc',b['argc'])
    print('names',[(n,pl(p)) for n,p in b['names']])
    for i,bl in enumerate(b['blocks']):
        if bl is None: continue
        print(f' bb{i}: (L{bl["l"]})')
        for s in bl['s']:
            if s[0]=='=': print('    ',pl(s[1]),'=',rv(s[2]))
            elif s[0]=='dead': pass
            else: print('    ',s)
        t=bl['t']
        if t[0]=='call': print('     ',pl(t[3]),'= CALL',op(t[1]),'('+', '.join(map(op,t[2]))+') ->',t[4])
        elif t[0]=='switch': print('      SWITCH',op(t[1]),t[3],'else',t[4])
        else: print('     ',t[0],*[op(x) if isinstance(x,dict) else x for x in t[1:]])
if __name__=='__main__':
    for f in glob.glob('/tmp/dump/*.json'):
        if not any(a in f for a in sys.argv[2:]): continue
        for b in json.load(open(f))['bodies']:
            if sys.argv[1] in b['path']: show(b)
