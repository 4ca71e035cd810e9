"""Helper to plant a bug: seed(id, property, needs, what, edits, native=main.rs | lib=lib.rs, run=run.mjs body | files={...}, sh=demo.sh)"""
import os, subprocess, json, shutil, sys
V='/verif'; R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def seed(id, prop, needs, what, edits, native=None, lib=None, run=None, sh_text=None, files=None, server=None, watch=None):
    d=f'{V}/seeded/{id}'
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(), 'repo dirty'
    try:
        for f,o,n in edits:
            p=f'{R}/{f}'; s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o),o); open(p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
        if native: open(d+'/main.rs','w').write(native); shutil.copy(V+'/tools/demo/native.sh', d+'/demo.sh')
        if lib:
            open(d+'/lib.rs','w').write(lib); shutil.copy(V+f'/tools/demo/{"server" if server else "watch" if watch else "wasm"}.sh', d+'/demo.sh')
        if run:
            open(d+'/run.mjs','w').write(open(V+'/tools/demo/wasm_head.mjs').read()+run.strip('\n')+"\nif (bad) process.exit(1);\nconsole.log('ok');\nprocess.exit(0);\n")
            for f in ['host','minidom','n','bare','engine']: shutil.copy(f'{V}/js/{f}.mjs', d)
        if server: open(d+'/run.mjs','w').write(open(V+'/tools/demo/server_head.mjs').read()+server.strip('\n')+"\nif (bad) process.exit(1);\nconsole.log('ok');\nprocess.exit(0);\n")
        if watch:
            open(d+'/run.mjs','w').write(open(V+'/tools/demo/watch_head.mjs').read()+watch.strip('\n')+"\nif (bad) process.exit(1);\nconsole.log('ok');\nprocess.exit(0);\n")
            for f in ['cargo','rustup']: shutil.copy(f'{V}/tools/standin-watch/{f}', d)
        for k,v in (files or {}).items(): open(d+'/'+k,'w').write(v)
        if sh_text: open(d+'/demo.sh','w').write(sh_text)
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":what}, open(d+'/meta.json','w'), indent=1)
        r=sh(f'timeout 300 bash {d}/demo.sh', cwd=R)
        if os.environ.get('DEMO'): pass
        print(id, 'demo with patch:', r.returncode, (r.stdout+r.stderr)[-500:].strip(), flush=True)
        if r.returncode==0 or r.returncode==2: print('   !!!! demo does not fail properly')
        t=sh(f'bash {V}/tools/stable.sh'); print('   tests:', t.stdout.strip()[-300:], flush=True)
        c=sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick ./run.sh {prop} quick'); print('   check:', c.returncode, (c.stdout+c.stderr)[-700:].strip(), flush=True)
    finally:
        sh(f'git -C {R} checkout -- .')
    r=sh(f'timeout 300 bash {d}/demo.sh', cwd=R); print('   demo without:', r.returncode, (r.stdout+r.stderr)[-300:].strip() if r.returncode else '', flush=True)
