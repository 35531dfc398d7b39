#!/bin/bash
# usage: build.sh OUTDIR REPO [flags...]: the stand-ins and the crate
here=$(cd "$(dirname "$0")" && pwd); o=$1; repo=$2; shift 2
R="rustc --edition 2021 -O -A warnings -L $o --out-dir $o"
ext() { for c in "$@"; do echo "--extern $c=$o/lib$c.rlib"; done; }
set -e
[ -f $o/libcairo_lang_starknet.rlib ] || {
$R --crate-type proc-macro --crate-name thiserror $here/thiserror.rs &
for c in sha3 lambdaworks_math log itertools num_integer bincode serde_json cairo_vm rayon; do $R --crate-type rlib --crate-name $c $here/$c.rs & done; wait
$R $(ext sha3 lambdaworks_math) --crate-type rlib --crate-name lambdaworks_crypto $here/lambdaworks_crypto.rs
$R $(ext cairo_vm) --crate-type rlib --crate-name cairo_lang_starknet $here/cairo_lang_starknet.rs
}
CARGO_MANIFEST_DIR=$repo $R $(ext sha3 lambdaworks_math log itertools num_integer bincode serde_json cairo_vm rayon lambdaworks_crypto cairo_lang_starknet) \
 --extern thiserror=$o/libthiserror.so --crate-type rlib --crate-name lambdaworks_stark "$@" $repo/src/lib.rs
