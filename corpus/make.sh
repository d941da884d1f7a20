#!/bin/bash
# Writes the reference corpus with the pinned version of jubako (the first commit of /repo) and the codec
# models of stubs/. Run once; the files are committed. usage: make.sh [commit]
set -e
C=${1:-$(git -C /repo rev-list --max-parents=0 HEAD)}
HERE=$(dirname "$(readlink -f "$0")")
T=$(mktemp -d /tmp/corpus.XXXXXX)
trap "rm -rf $T" EXIT
git -C /repo archive --prefix=repo/ "$C" | tar -x -C "$T"
mkdir "$T/v"; cp -r "$HERE/../harness" "$HERE/../stubs" "$HERE/../engine" "$HERE" "$T/v/"
sed -i "s#path = \"/repo\"#path = \"$T/repo\"#" "$T/v/harness/Cargo.toml"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
(cd "$T/v/harness" && cargo build --release --features native --offline --target-dir "$T/target")
gen() { # dir params...
  mkdir -p "$HERE/$1"; cd "$HERE/$1"; shift
  : > "$T/replay"; while [ $# -gt 0 ]; do echo "p $1 $2" >> "$T/replay"; shift 2; done
  VSYM_HARNESS=c14_gen VSYM_REPLAY="$T/replay" "$T/target/release/harness"
}
m=0
for n in one two no man1 man2; do
  for c in 0 1 2 3; do gen "$n$c" set 0 mode $m comp $c; done
  m=$((m + 1))
done
gen wide set 1
for c in 0 1 2 3; do gen "big$c" set 2 comp $c; done
python3 - "$HERE" > "$HERE/../harness/src/corpus.rs" <<'P'
import os, sys
h = sys.argv[1]
print('//! The committed reference files (written by corpus/make.sh).')
print("pub fn files(set: &str) -> Vec<(&'static str, &'static [u8])> {")
print('    macro_rules! f {\n        ($s:literal, $n:literal) => {\n            ($n, &include_bytes!(concat!("../../corpus/", $s, "/", $n))[..])\n        };\n    }')
print('    match set {')
for d in sorted(os.listdir(h)):
    if os.path.isdir(os.path.join(h, d)):
        print(f'        "{d}" => vec![' + ', '.join(f'f!("{d}", "{n}")' for n in sorted(os.listdir(os.path.join(h, d)))) + '],')
print('        _ => vec![],\n    }\n}')
P
