#!/usr/bin/env python3
"""Development only (no check uses this): seed.py FILE.py makes and validates planted bugs.
FILE.py defines BUGS: dicts with id, property, edits [(file, old, new)], needs, breaks, demo."""
import sys, os, subprocess, json, shutil, importlib.util
V='/verif'; W='/tmp/seedwork'
ENV=dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTFLAGS='-A dependency_on_unit_never_type_fallback', RUST_BACKTRACE='0', CARGO_TARGET_DIR=W+'/target', RUSTC_WRAPPER='')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def setup():
    if not os.path.isdir(W): sh(f'cp -a /repo {W}')
    sh(f'git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q -f FETCH_HEAD', )
def build(): return sh('cargo test --workspace --no-run --locked --offline', cwd=W, env=ENV)
def tests():
    r=sh('cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8', cwd=W, env=ENV)
    return r
def demo(d, where):
    shutil.rmtree('/tmp/seeddemo', ignore_errors=True); os.makedirs('/tmp/seeddemo')
    for f in os.listdir(d):
        if f not in ('patch.diff','meta.json'): shutil.copy(os.path.join(d,f), '/tmp/seeddemo')
    try: return subprocess.run(['bash','/tmp/seeddemo/demo.sh'], cwd=where, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess([], 99, '', 'timeout')
def main():
    spec=importlib.util.spec_from_file_location('b', sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only=set(sys.argv[2:])
    setup()
    for b in m.BUGS:
        if only and b['id'] not in only: continue
        d=f"{V}/seeded/{b['id']}"
        ok=True; sh('git checkout -q -f .', cwd=W)
        # demos on the clean tree
        for f,old,new in b['edits']:
            p=f'{W}/{f}'; s=open(p).read()
            if s.count(old)!=1: print(b['id'],'edit matches',s.count(old),'times:',old); ok=False; break
            open(p,'w').write(s.replace(old,new))
        if not ok: continue
        diff=sh('git diff', cwd=W).stdout
        os.makedirs(d, exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write("#!/bin/bash\n"+b['demo'].strip('\n')+'\n')
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']}, open(d+'/meta.json','w'), indent=1)
        r=build()
        if r.returncode: print(b['id'],'DOES NOT BUILD', r.stderr[-1500:]); shutil.rmtree(d); continue
        t=tests()
        if t.returncode: print(b['id'],'TESTS FAIL', [l for l in t.stdout.split('\n') if 'FAILED' in l][:5]); shutil.rmtree(d); continue
        bad=demo(d, W)
        good=demo(d, '/repo')
        if good.returncode!=0: print(b['id'],'demo fails on the clean tree', good.stdout[-500:], good.stderr[-500:]); ok=False
        if bad.returncode==0: print(b['id'],'demo passes with the bug', bad.stdout[-500:]); ok=False
        print(b['id'], 'VALID' if ok else 'INVALID')
    sh('git checkout -q -f .', cwd=W)
main()
