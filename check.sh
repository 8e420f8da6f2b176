#!/bin/bash
# check.sh <property> [quick|thorough] [--only <case key>]
# Rebuilds the harness against /repo's working tree and runs one check.
cd /verif || exit 2
id=$1
tier=${2:-quick}
case $id in
  C01|C02|C03|C04|C05|selftest) bin=util ;;
  C06|C07|C08|C09|C10|C11|C12|C13|C14|C15|C16|C17) bin=bignat ;;
  C18|C19|C20|C21|C22|C23) bin=time ;;
  C24|C25|C26) bin=header ;;
  C27|C28) bin=shape ;;
  *) echo "unknown property $id"; exit 2 ;;
esac
mkdir -p out
log=out/build-$id.log
if ! cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir target --bin $bin >"$log" 2>&1; then
  echo "build failed:"; tail -40 "$log"; exit 2
fi
exec target/debug/$bin "$@" 2>/dev/null
