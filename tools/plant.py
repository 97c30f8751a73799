#!/usr/bin/env python3
"""plant.py [ids...]: for every bug in bugs*.py make /verif/seeded/<id>; verify it."""
import sys,os,subprocess,shutil,glob,json
W='/tmp/pw'
def sh(c,cwd=None,t=600):
    return subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True,timeout=t)
ENV='export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true; '
BUGS=[]
def bug(id,prop,file,edits,demo,needs,breaks):
    BUGS.append(dict(id=id,prop=prop,file=file,edits=edits,demo=demo,needs=needs,breaks=breaks))
for f in sorted(glob.glob('/tmp/plant/bugs*.py')):
    exec(open(f).read())
DEMO_SH='''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
osu-file-parser = { path = "$repo" }
rust_decimal = "1.25.0"
either = "1.7.0"
EOF
cd "$tmp" || exit 3
cargo build --offline -q --target-dir "$tmp/target" || exit 3
timeout 100 "$tmp/target/debug/demo"
'''
if not os.path.isdir(W):
    print(sh('git -C /repo worktree prune; cp -a /repo '+W).stderr)
def passed(out):
    return sorted(l for l in out.splitlines() if l.startswith('test ') and l.endswith('... ok'))
only=sys.argv[1:]
sh('git checkout -q -f master 2>/dev/null; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',W)
T='timeout 150 cargo test --workspace --no-fail-fast --offline 2>&1'
base=passed(sh(ENV+T,W).stdout)
print(len(base),'tests pass unpatched')
for b in BUGS:
    d='/verif/seeded/'+b['id']
    if only and b['id'] not in only: continue
    if not only and os.path.exists(d+'/meta.json'): continue
    sh('git checkout -q -- .',W)
    ok=True
    files=b['file'] if isinstance(b['file'],list) else [b['file']]*len(b['edits'])
    for f,(o,n) in zip(files,b['edits']):
        p=W+'/src/'+f
        s=open(p).read()
        if s.count(o)!=1:
            print(b['id'],'EDIT MISMATCH',s.count(o),o[:60]); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: continue
    r=sh(ENV+T,W)
    got=passed(r.stdout)
    if set(base)-set(got):
        print(b['id'],'TESTS FAIL', sorted(set(base)-set(got))[:5], r.stdout[-1500:] if not got else ''); continue
    diff=sh('git diff -U0',W).stdout
    orig=0; f=None; ln=0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        elif l.startswith('@@'): ln=int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            bl=sh(f'git blame -s -l -L {ln},{ln} HEAD -- {f}',W).stdout
            anc=sh('git merge-base --is-ancestor '+bl.split()[0].lstrip('^')+' 4c2527b',W).returncode
            if anc==0: orig+=1
            ln+=1
    if orig==0: print(b['id'],'NO ORIGINAL LINE CHANGED'); d='/tmp/extra/'+b['id']
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git diff',W).stdout)
    open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.rs','w').write(b['demo'])
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    rp=sh(d+'/demo.sh',W)
    sh('git checkout -q -- .',W)
    ru=sh(d+'/demo.sh',W)
    st='OK' if rp.returncode not in (0,3) and ru.returncode==0 else 'BAD DEMO'
    print(b['id'],b['prop'],st,'patched rc',rp.returncode,'clean rc',ru.returncode)
    if st!='OK':
        print(' patched:',rp.stdout[-500:],rp.stderr[-1500:]); print(' clean:',ru.stdout[-500:],ru.stderr[-1500:])
        shutil.rmtree(d)
