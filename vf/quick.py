import sys, json, time, subprocess
sys.path.insert(0,'/verif/vf')
import build, hooks, verify
h=sys.argv[1]; srcs=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2] else []
t=time.time()
try:
    j=build.module_json(h,srcs,hooks.CUTS)
except build.BuildError as e:
    print(e); sys.exit(1)
print('ir',time.time()-t, j)
mod=json.load(open(j))
names=[x for x in sys.argv[3:] if x!='-m'] or [k for k in mod['functions'] if k.startswith('vc_')]
for n in names:
    n = n if n.startswith('vc_') else 'vc_'+n
    r=verify.run_contract(mod,n,trace=len(sys.argv)>3)
    print(n, 'UNSUPPORTED '+r['unsupported'] if r['unsupported'] else 'ok','wall',r['wall'],'instr',r['instructions'],'solver',r['solver_time'])
    agg={}
    for o in r['obligations']:
        if agg.get(o['name'],('proved',))[0]=='proved': agg[o['name']]=(o['status'],o['backend'],o['reason'],o['model'])
    for k,v in agg.items():
        bad = (v[0]=='proved')==k.startswith('FALSE')
        print('  ','!!' if bad else '  ',v[0],k,v[1],v[2], v[3][:1500] if '-m' in sys.argv else '')
    print('    ',r['covers'])
