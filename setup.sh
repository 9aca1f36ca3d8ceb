#!/bin/bash
# Nothing is compiled: check that the tools and the specifications are usable.
cd "$(dirname "$0")" || exit 1
work="$(mktemp -d /tmp/verif.XXXXXX)" || exit 1
trap 'rm -rf -- "$work"' EXIT
cp spec/*.tla "$work" || exit 1
cd "$work" || exit 1
for m in *.tla; do
  java -Djava.io.tmpdir="$work" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY "$m" > sany.out 2>&1 || { cat sany.out; exit 1; }
done
echo "specifications parsed: $(ls ./*.tla | wc -l)"
