import sys, time
sys.path.insert(0,'/verif')
from pyvc import contract as K
K.load_all()
from pyvc import symctx
name=sys.argv[1]
verbose='-v' in sys.argv
sel=[a for a in sys.argv[2:] if a.isdigit()]
for n,con in K.REGISTRY.items():
    if not (n==name or (name.endswith('*') and n.startswith(name[:-1]))): continue
    for ci,case in enumerate(con.cases):
        if sel and str(ci) not in sel: continue
        t0=time.time()
        r=symctx.verify(con,case,ci,verbose=verbose,deadline=time.time()+con.budget_s)
        st={}
        for o in r.obls: st[o.status]=st.get(o.status,0)+1
        print(f"{n} case {ci} {case}: {st} trivial={r.n_trivial} vac={r.n_vacuous} paths={r.paths} ended={ {x:r.ended.count(x) for x in set(r.ended)} } {r.unsupported or ''} {time.time()-t0:.1f}s used={r.used}")
        for o in r.obls:
            if o.status!='discharged': print('   ',o.status,o.name, str(o.goal)[:300].replace('\n',' '))
