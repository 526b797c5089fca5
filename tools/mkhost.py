"""Makes seeded/<id>/ for a bug of the macro host: the demo expands code for several projects in one compiler process,
with a helper macro that switches projects and edits files between expansions."""
import json, os, subprocess
ED = r'''use proc_macro::TokenStream;
// each takes string literals and acts while the compiler expands the crate
fn args(t: TokenStream) -> Vec<String> {
    t.into_iter().filter_map(|t| match t {
        proc_macro::TokenTree::Literal(l) => { let s = l.to_string(); let s = s.strip_prefix("r#").map(|s| s.trim_end_matches('#')).unwrap_or(&s); Some(s.trim_matches('"').to_string()) }
        _ => None,
    }).collect()
}
fn base() -> std::path::PathBuf { std::env::var("DEMO_DIR").unwrap().into() }
/// the code that follows belongs to this project
#[proc_macro] pub fn dir(t: TokenStream) -> TokenStream { let p = base().join(&args(t)[0]); std::fs::create_dir_all(&p).unwrap(); unsafe { std::env::set_var("CARGO_MANIFEST_DIR", p) }; TokenStream::new() }
#[proc_macro] pub fn put(t: TokenStream) -> TokenStream { let a = args(t); let p = base().join(&a[0]); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, &a[1]).unwrap(); TokenStream::new() }
#[proc_macro] pub fn rm(t: TokenStream) -> TokenStream { std::fs::remove_file(base().join(&args(t)[0])).unwrap(); TokenStream::new() }
'''
DEMO = r'''#!/bin/bash
# Runs in the repository after its build. One compiler process expands main.rs, whose helper macros (ed.rs) switch projects and
# edit their hooq.toml in a scratch folder between the expansions.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true
export PATH=/root/.cargo/bin:$PATH; unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUST_BACKTRACE
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/ed/src" "$t/w" && cp "$here/main.rs" "$t/src/" && cp "$here/ed.rs" "$t/ed/src/lib.rs" || exit 2
cp "$repo/Cargo.lock" "$t/" || exit 2
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
hooq = { path = "$repo/hooq" }
ed = { path = "ed" }
[workspace]
EOF
cat > "$t/ed/Cargo.toml" <<EOF
[package]
name = "ed"
version = "0.0.0"
edition = "2024"
[lib]
proc-macro = true
EOF
cd "$t" && export DEMO_DIR=$t/w && @RUN@
'''
TAGS = '''#![allow(unused)]
use hooq::hooq;
trait Hk: Sized { fn hk(self, t: &'static str) -> Self { SEEN.with(|s| s.borrow_mut().push(t)); self } }
impl<T, E> Hk for Result<T, E> {}
thread_local! { static SEEN: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(Vec::new()) }; }
fn take() -> Vec<&'static str> { SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) }
fn ok() -> Result<i32, String> { Ok(0) }
'''


def mkhost(id, prop, edits, main, needs, breaks, run="cargo run -q --offline"):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True).stdout == b''
    try:
        for f, o, n in edits:
            p = '/repo/hooq-macros/src/impls/' + f
            s = open(p).read()
            assert s.count(o) == 1, (id, f, s.count(o))
            open(p, 'w').write(s.replace(o, n))
        df = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(df)
    open(d + '/demo.sh', 'w').write(DEMO.replace('@RUN@', run))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(TAGS + main)
    open(d + '/ed.rs', 'w').write(ED)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
