#!/bin/sh
# Builds every harness binary of /repo's current tree into .cache (checks build what they need themselves too).
cd "$(dirname "$0")" || exit 1
V=""
for v in fd_lon cheb_lon fd_phi cheb_phi; do V="$V $v:opt $v:san $v:opt:main $v:san:main"; done
exec /opt/veriftools/pyvenv/bin/python3 -B harness/build.py $V
