# usage: import mk; mk.bug(id, prop, [(file, old, new)], main_rs, needs, breaks)
import subprocess, os, json
DEMO='''#!/bin/bash
# Builds a small program against the docx-rs of the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
docx-rs = { path = "$repo/docx-core" }
zip = { version = "*", default-features = false, features = ["deflate"] }
serde_json = "1"
[profile.dev]
debug = false
EOF
export RUSTUP_TOOLCHAIN=1.88-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
cd "$w" && cargo build --offline --quiet 2>"$w/log" || { tail -n 20 "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
'''
PRE='''use docx_rs::*;
#[allow(unused_imports)]
use std::io::{Cursor, Read};

#[allow(dead_code)]
fn save(d: Docx) -> Vec<u8> {
    let mut b = Cursor::new(vec![]);
    d.build().pack(&mut b).expect("saving");
    b.into_inner()
}

#[allow(dead_code)]
fn part(b: &[u8], name: &str) -> String {
    let mut z = zip::ZipArchive::new(Cursor::new(b)).expect("a zip");
    let mut s = String::new();
    z.by_name(name).expect(name).read_to_string(&mut s).expect("text");
    s
}

'''
def bug(id, prop, edits, main, needs, breaks):
    d=f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout=='' 
    try:
        for f,o,n in edits:
            p='/repo/docx-core/src/'+f
            s=open(p).read()
            assert s.count(o)==1,(f,s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(PRE+main.lstrip())
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
