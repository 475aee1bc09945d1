#!/bin/sh
# Nothing is kept between runs: every check builds what it needs in a scratch directory. This only confirms that the
# tools are there and that the specification's accelerated operators compile.
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d "$d" spec/java/FrodoOverrides.java || exit 1
for t in gcc clang make /opt/veriftools/pyvenv/bin/python3 /opt/vp/pyvenv/bin/python java; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
echo ready
