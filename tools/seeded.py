#!/usr/bin/env python3
"""Plants and checks seeded bugs (never run by a check).
  seeded.py make FILE.py        plant the bugs a spec file lists (dict BUGS), keep those that hold up
  seeded.py run [ID...]         run the property's quick check on /repo with each bug applied (and undo it)
"""
import json, os, re, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = ROOT + '/tools/seedkit'
SC = '/tmp/seedwork'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def scratch():
    if not os.path.exists(SC + '/repo'):
        os.makedirs(SC, exist_ok=True)
        sh(f'cp -a /repo {SC}/repo && rm -rf {SC}/repo/target/vp-reports')
    sh(f'cd {SC}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
def tests():
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=SC + '/repo/target', CARGO_INCREMENTAL='1',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
    for f in ('', '--features pre-rfc8301'):
        r = sh(f'cd {SC}/repo && rm -rf target/debug/.fingerprint/viadkim-* && timeout 400 cargo test --workspace --no-fail-fast --offline {f} -- --test-threads 8', env=env)
        if r.returncode: return r.stdout
    return None
def demo(d):
    return sh(f'cd {SC}/repo && bash {d}/demo.sh', env=dict(os.environ, DEMO_TARGET_DIR=SC + '/demo-target'))
def make(spec, only):
    bugs = runpy.run_path(spec)['BUGS']
    for id, b in bugs.items():
        if only and id not in only: continue
        d = f'{ROOT}/seeded/{id}'
        if os.path.exists(d + '/patch.diff') and not only: continue
        scratch()
        tmp = f'{SC}/new/{id}'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        s = open(KIT + '/demo.sh').read().replace('FEATURES', ', features = ["pre-rfc8301"]' if b.get('pre') else '')
        open(tmp + '/demo.sh', 'w').write(s); os.chmod(tmp + '/demo.sh', 0o755)
        shutil.copy(KIT + '/common.rs', tmp)
        open(tmp + '/demo.rs', 'w').write('mod common;\nuse common::*;\n' + b['demo'])
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        r = demo(tmp)
        if r.returncode != 0:
            print(f'{id}: demo fails on the unchanged tree ({r.returncode})\n' + r.stdout[:700]); continue
        bad = False
        for f, old, new in b['edits']:
            p = f'{SC}/repo/src/{f}'; t = open(p).read()
            if t.count(old) != 1:
                print(f'{id}: {f}: old text occurs {t.count(old)} times'); bad = True; break
            open(p, 'w').write(t.replace(old, new))
        if bad: continue
        open(tmp + '/patch.diff', 'w').write(sh(f'cd {SC}/repo && git diff').stdout)
        t = tests()
        if t is not None:
            print(f'{id}: tests fail\n' + '\n'.join([l for l in t.split('\n') if re.search(r'^error|FAILED|panicked|^  *-->', l)][:12])); continue
        r = demo(tmp)
        if r.returncode == 0: print(f'{id}: demo passes with the bug'); continue
        if r.returncode == 3: print(f'{id}: demo does not build\n' + r.stdout[:500]); continue
        shutil.rmtree(d, ignore_errors=True); os.makedirs(ROOT + '/seeded', exist_ok=True); shutil.move(tmp, d)
        print(f'{id}: kept (demo exit {r.returncode}: {r.stdout.strip().splitlines()[-1][:100] if r.stdout.strip() else ""})')
    scratch()
def run(ids):
    ids = ids or sorted(os.listdir(ROOT + '/seeded'))
    for id in ids:
        d = f'{ROOT}/seeded/{id}'; m = json.load(open(d + '/meta.json'))
        r = sh(f'git -C /repo apply {d}/patch.diff')
        if r.returncode: print(id, 'does not apply', r.stdout); continue
        try:
            r = sh(f'cd {ROOT} && VERIF_SEED={os.environ.get("VERIF_SEED","1")} timeout 900 ./run.sh {m["property"]} quick')
        finally:
            sh('git -C /repo checkout -- .')
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        ok = r.returncode == 1 and any(f'property={m["property"]} ' in l for l in v)
        print(id, m['property'], 'CAUGHT' if ok else f'MISSED rc={r.returncode}', '|', (r.stdout.strip().split('\n')[-1])[:160], flush=True)
if sys.argv[1] == 'make': make(sys.argv[2], sys.argv[3:])
else: run(sys.argv[2:])
