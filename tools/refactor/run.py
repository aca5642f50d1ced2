#!/usr/bin/env python3
"""run.py FILE.py [NAME ...] [--checks C01,C02] : applies each group of behaviour-preserving edits to
/repo, runs the checks (all by default), and undoes it. Nothing should alarm."""
import importlib.util, os, subprocess, sys, time
args=sys.argv[1:]; checks=None
if '--checks' in args:
    i=args.index('--checks'); checks=args[i+1].split(','); del args[i:i+2]
spec=importlib.util.spec_from_file_location('r',args[0]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
checks=checks or [f'C{i:02d}' for i in range(1,22)]
groups=[(n,e) for n,e in m.REFACTORS if not args[1:] or n in args[1:]]
if os.environ.get('TOGETHER'): groups=[('all of them',[e for _,es in groups for e in es])]
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
def undo(): sh('git -C /repo checkout -q -- .')
try:
    for n,edits in groups:
        undo(); bad=None
        for f,a,b in edits:
            p='/repo/'+f; s=open(p).read()
            if s.count(a)!=1: bad=f'edit matches {s.count(a)} times: {a[:70]!r}'; break
            open(p,'w').write(s.replace(a,b))
        if bad: print(n,bad); continue
        t=sh('cd /repo && cargo test --workspace --all-features --offline --lib -- --test-threads 8')
        if t.returncode: print(n,'tests fail',(t.stdout+t.stderr)[-1500:]); continue
        for c in checks:
            s=time.time(); r=sh(f'cd /verif && VERIF_TIER=quick VERIF_SEED=1 timeout 900 ./check.sh {c}')
            print(n,c,'quiet' if r.returncode==0 else f'ALARM rc={r.returncode} '+' | '.join(l for l in (r.stdout+r.stderr).split('\n') if 'VIOLATION' in l or 'rror' in l)[:600],f'{time.time()-s:.0f}s',flush=True)
finally: undo()
