#!/bin/bash
# Nothing is compiled: checks that the toolchain is there and the specifications typecheck.
cd "$(dirname "$0")/.." || exit 1
command -v quint >/dev/null || { echo "quint missing"; exit 1; }
rc=0
for f in spec/*.qnt; do quint typecheck "$f" >/tmp/vsetup.$$ 2>&1 || { echo "typecheck failed: $f"; tail -5 /tmp/vsetup.$$; rc=1; }; done
rm -f /tmp/vsetup.$$
exit $rc
