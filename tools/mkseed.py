#!/usr/bin/env python3
# Writes seeded/<id>/ from tools/seeds.py, with a scratch clone of /repo. Arguments: the ids to write (default all).
import subprocess, os, json, sys
HERE=os.path.dirname(os.path.abspath(__file__))
R='/tmp/fp-mkseed'
subprocess.run('rm -rf /tmp/fp-mkseed; git clone -q /repo /tmp/fp-mkseed',shell=True,check=True)
DEMO='''#!/bin/bash
# Runs demo.rs against the crate in the current directory. {extra}
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
mkdir -p /tmp/fp-demo-{id}/src
cat >/tmp/fp-demo-{id}/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
fast_paths = {{ path = "$repo" }}
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"
bincode = "1"
log = "0.4"
libc = "0.2"
[profile.release]
debug = false
[workspace]
T
cp "$here/demo.rs" /tmp/fp-demo-{id}/src/main.rs
unset RUSTC_WRAPPER RUSTFLAGS
export CARGO_NET_OFFLINE=true REPO=$repo
cd /tmp/fp-demo-{id} || exit 99
cargo build --release --offline -q --target-dir /tmp/fp-demo-{id}/target || {{ rm -rf /tmp/fp-demo-{id}; exit 98; }}
timeout 200 /tmp/fp-demo-{id}/target/release/demo
rc=$?
cd /
rm -rf /tmp/fp-demo-{id}
exit $rc
'''
def seed(id, prop, edits, demo, needs, breaks, extra=''):
    if ONLY and id not in ONLY: return
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
    for f,a,b in edits:
        p=f'{R}/src/{f}'; s=open(p).read()
        assert s.count(a)==1,(id,f,a,s.count(a))
        open(p,'w').write(s.replace(a,b))
    d=subprocess.run(['git','-C',R,'diff'],check=True,capture_output=True,text=True).stdout
    o=f'{HERE}/../seeded/{id}'; os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(d)
    open(o+'/demo.rs','w').write(demo.lstrip())
    open(o+'/demo.sh','w').write(DEMO.format(id=id,extra=extra)); os.chmod(o+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(o+'/meta.json','w'),indent=1)
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
ONLY=sys.argv[1:]
exec(open(HERE+'/seeds.py').read())
subprocess.run('rm -rf /tmp/fp-mkseed',shell=True)
