#!/bin/bash
# check.sh <property> <quick|thorough> [--case KEY]: build against /repo's current tree, then decide.
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
. ./env.sh
id=$1; tier=$2; shift 2
mkdir -p out evidence
rm -f "evidence/$id.json"
crate=core; bin=tkmc
case $id in
  C09) crate=conc; bin=tkconc;;
  C23) crate=qis; bin=tkqis;;
esac
if ! cargo build --offline --manifest-path mc/$crate/Cargo.toml >"out/$id.build.log" 2>&1; then
  tail -40 "out/$id.build.log"
  echo "check $id: build failed"
  exit 3
fi
ulimit -v 28000000
"$CARGO_TARGET_DIR/debug/$bin" "$id" --tier "$tier" "$@" >"out/$id.log" 2>&1
rc=$?
cut -c1-1500 "out/$id.log"
case $rc in
  0|1) exit $rc;;
  134|139) # abort or stack overflow inside the code under test (panics are caught): a violation too
    grep -q '^memory allocation of' "out/$id.log" && exit 3
    echo "exit status $rc: the process running the code under test died"
    echo "VIOLATION property=$id replay=$PWD/out/$id.log"
    exit 1;;
  *) echo "check $id: machinery ended with status $rc"; exit 3;;
esac
