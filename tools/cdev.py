"""usage: python3 tools/cdev.py <contract|prefix*> [n]  -- run contracts concretely on the real code"""
import sys, json, subprocess, tempfile, os
sys.path.insert(0, '/verif')
from pyvc import run
import importlib
pat = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 0
code = "import sys,json;sys.path.insert(0,'/verif')\nfrom pyvc import contract as K;K.load_all();print(json.dumps(list(K.REGISTRY)))"
names = json.loads(subprocess.run([run.VENV, '-c', code], capture_output=True, text=True, env=run.env(), check=True).stdout)
sel = [x for p in pat.split(',') for x in names if x == p or p.endswith('*') and x.startswith(p[:-1])]
tmp = tempfile.mkdtemp()
p, o, err = run.start_concrete(dict(contracts=sel, seconds=int(os.environ.get('SECS','60')), seed=int(os.environ.get('SEED','1')), n=n), tmp, 0)
p.wait()
d = run.read_out(o)
if p.returncode: print(open(err).read()[-3000:])
for k, v in (d or {'contracts': {}})['contracts'].items():
    print(k, {q: v[q] for q in ('runs', 'skips', 'timeouts', 'distinct')}, round(v['secs'], 1), 'FAILS' if v['fails'] else '', {q: (w['count'], w['clause'], w['detail'][:200]) for q, w in v['known'].items()})
    for f in v['fails'][:2]: print('   ', f['case'], f['clause'], '|', f['detail'][:500], '|', json.dumps(f['given'], default=str)[:700])
