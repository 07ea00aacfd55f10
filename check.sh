#!/bin/sh
# check.sh PROPERTY quick|thorough: rebuild against /repo's working tree, then decide the property.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
tier=${2:-quick}
kani=
crate=symex
case "$1" in
    C25|C26) crate=wktx ;;
    C07) exec python3 fx/run.py hx "$1" "$tier" ;;
    C08|C09|C20|C28) kani=fx ;;
esac
if ! ./setup.sh $crate >/dev/null 2>evidence/build.log; then
    tail -40 evidence/build.log
    echo "ERROR the code under test does not build with the harness"
    exit 2
fi
rm -f "$PWD/evidence/build.log"
$crate/target/release/$crate check "$1" --tier "$tier"
rc=$?
[ -n "$kani" ] && [ $rc -eq 0 ] || exit $rc
exec python3 fx/run.py $kani "$1" "$tier"
