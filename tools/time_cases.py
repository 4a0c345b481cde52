import sys,time,json
sys.path.insert(0,'/verif')
sys.dont_write_bytecode=True
import importlib
from harness_plan import PLAN
import subprocess
ids=sys.argv[1].split(',') ; tier=sys.argv[2] if len(sys.argv)>2 else 'quick'; bud=sys.argv[3] if len(sys.argv)>3 else '200'
for i in ids:
    n=len(PLAN[i]['quick']) + (len(PLAN[i].get('thorough',[])) if tier!='quick' else 0)
    st=0 if tier!='only' else len(PLAN[i]['quick'])
    for c in ([int(x) for x in sys.argv[4].split(',')] if len(sys.argv)>4 else range(st,n)):
        p=subprocess.run(['python3-vt','/verif/check.py',i,'--tier','thorough' if tier!='quick' else 'quick','--case',str(c),'--budget',bud],capture_output=True,text=True)
        case=(PLAN[i]['quick']+PLAN[i].get('thorough',[]))[c]
        print(i,c,case['fn'],json.dumps(case['args'],ensure_ascii=True)[:170],'\n     ',p.stdout.strip()[-400:],p.stderr.strip()[-1500:],flush=True)
