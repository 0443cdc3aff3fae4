#!/usr/bin/env python3
"""summary of 'gosym run' output"""
import sys,json,base64
t=sys.stdin.read(); seen={}
d=json.JSONDecoder(); i=0; first=True
while i<len(t):
    while i<len(t) and t[i].isspace(): i+=1
    if i>=len(t): break
    if t[i]!='{':
        j=t.find('\n',i); j=len(t) if j<0 else j
        print(t[i:j][:300]); i=j; continue
    o,i=d.raw_decode(t,i)
    if first:
        first=False
        print(o['harness'],o['bounds'],'paths',o['paths'],o['path_ends'],'q',o['solver_queries'],'sat',o['sat'],'unsat',o['unsat'],'unk',o['unknown'],'cached',o['answered_from_query_cache'],'fast',o['decided_by_byte_domains'],'sol %.1f wall %.1f'%(o['solver_s'],o['wall_s']),'TIMEOUT' if o['timed_out'] else '', 'depth',o['max_decisions_on_a_path'],'steps',o['instructions_executed'], 'G',o.get('max_goroutines'))
        print(' reach',o['reach_witnesses'])
        for k in('truncated','unsupported'):
            for m,n in list(o.get(k,{}).items())[:8]: print(' ',k,n,m[:600])
    else:
        def f(x):
            if x['kind']=='bytes': return x['name']+'='+repr(base64.b64decode(x.get('bytes') or ''))
            return x['name']+'='+str(x['int'])
        k=(o['kind'],o['msg'],o['where'])
        seen[k]=seen.get(k,0)+1
        if seen[k]>1: continue
        print('  VIOL',o['kind'],'|',o['msg'][:300],'|',o['where'],'|',', '.join(f(x) for x in (o['inputs'] or []))[:400])
        for s in (o.get('stack') or [])[:int(sys.argv[1]) if len(sys.argv)>1 else 3]: print('       ',s)
        for s in (o.get('schedule') or [])[:40]: print('       >',s)
