#!/bin/bash
# usage: demo.sh MAIN.rs [flags]: builds the stand-ins, the crate from the current directory, and MAIN, and runs it
here=$(cd "$(dirname "$0")" && pwd); m=$1; shift
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
bash "$here/build.sh" "$w" "$PWD" "$@" || exit 2
rustc --edition 2021 -O -A warnings -L "$w" --extern lambdaworks_math="$w/liblambdaworks_math.rlib" --extern lambdaworks_crypto="$w/liblambdaworks_crypto.rlib" \
  --extern lambdaworks_stark="$w/liblambdaworks_stark.rlib" "$@" -o "$w/demo" "$here/$m" || exit 2
"$w/demo"
