"""usage: python3-vt tools/sdev.py pat[,pat] [-v]: symbolic verification, parallel, summarised per contract"""
import sys, time, warnings, os
warnings.simplefilter("ignore")
sys.path.insert(0, '/verif')
from pyvc import contract as K, run
K.load_all()
pats = sys.argv[1].split(',')
names = [n for n, c in K.REGISTRY.items() if c.level == 'proof' and any(n == p or p.endswith('*') and n.startswith(p[:-1]) for p in pats)]
t0 = time.time()
res = run.run_symbolic([(n, ci, K.REGISTRY[n].budget_s) for n in names for ci in range(len(K.REGISTRY[n].cases))], 'quick')
for n in names:
    rs = sorted([r for r in res if r['contract'] == n], key=lambda r: r['case'])
    tot = sum(len(r['obls']) + len(r['trivial']) for r in rs)
    st = {}
    for r in rs:
        for o in r['obls']:
            st[o['status']] = st.get(o['status'], 0) + 1
    uns = {}
    for r in rs:
        if r['unsupported']: uns.setdefault(r['unsupported'][:300], []).append(r['case'])
    noret = [r['case'] for r in rs if not r['unsupported'] and not r['ended']]
    print(f"{n}: cases={len(rs)} obl={tot} {st} secs={max(r['secs'] for r in rs):.1f} {'NO-EXIT '+str(noret) if noret else ''} {'ended='+str([r['ended'] for r in rs]) if '-v' in sys.argv else ''}")
    for u, cs in uns.items(): print("    UNSUP", cs, u)
    for r in rs:
        for o in r['obls']:
            if o['status'] != 'discharged': print('   ', o['status'], 'case', r['case'], o['name'], '|', (o.get('goal') or '')[:250].replace('\n', ' '))
print(f"{time.time()-t0:.1f}s")
