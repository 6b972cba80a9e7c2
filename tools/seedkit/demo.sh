#!/bin/bash
# decodes the recorded session req.bin with the library built in /repo and compares with the answers of the unchanged decoder
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=/repo
gcc -O1 -w -D_X86_ -I$R/decoder/x86_64 -I$R/decoder -I$R/test "$D/driver.c" $R/_build/libia_mpeghd_lib.a -lm -o $T/d || exit 2
$T/d < "$D/req.bin" > $T/out.bin || { echo "decoder died"; exit 1; }
python3 "$D/cmp.py" "$D/exp.bin" $T/out.bin WD TOL
