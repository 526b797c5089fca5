import os,subprocess,json
DEMO='''#!/bin/bash
# Runs in the repository after its build. Builds main.rs against the repository's hooq in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true
export PATH=/root/.cargo/bin:$PATH; unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUST_BACKTRACE
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here"/*.rs "$t/src/" || exit 2
[ -f "$here/hooq.toml" ] && cp "$here/hooq.toml" "$t/"
cp "$repo/Cargo.lock" "$t/" || exit 2
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
hooq = { path = "$repo/hooq"@FEAT@ }
@DEPS@
[workspace]
EOF
cd "$t" && cargo run -q --offline
'''
def mk(id,prop,edits,main,needs,breaks,feat='',deps='',toml=None):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True).stdout==b''
    try:
        for f,o,n in edits:
            p='/repo/hooq-macros/src/impls/'+f; s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o)); open(p,'w').write(s.replace(o,n))
        df=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    finally: subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(df)
    open(d+'/demo.sh','w').write(DEMO.replace('@FEAT@',', features = [%s]'%feat if feat else '').replace('@DEPS@',deps)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(main)
    if toml: open(d+'/hooq.toml','w').write(toml)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
