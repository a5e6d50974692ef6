#!/bin/bash
# revertfixes.sh [SECONDS] [ID...]: undoes each repair named in KNOWN_FINDINGS.txt in a scratch clone of /repo and runs the check named there, which must report it. Where it does not revert alone, the tree before it is taken.
secs=${1:-10}; shift
grep '^fixed:' "$(dirname "$0")/../KNOWN_FINDINGS.txt" | while read -r _ p c rest; do
  p=${p#property=}
  if [ $# -gt 0 ]; then case " $* " in *" $p "*|*" $c "*) ;; *) continue;; esac; fi
  W=$(mktemp -d /tmp/revert.XXXXXX)
  git clone -q /repo "$W/repo"
  how=reverted
  git -C "$W/repo" -c user.name=x -c user.email=x revert -n "$c" > "$W/log" 2>&1 || { git -C "$W/repo" reset -q --hard; git -C "$W/repo" checkout -q "$c^"; how="tree before it"; }
  OQPI_REPO="$W/repo" timeout 900 python3 "$(dirname "$0")/../run.py" $p --seconds $secs > "$W/check.log" 2>&1
  echo "$c $p ($how) exit $? $(grep -m1 '^violation' "$W/check.log" | cut -c1-160)$(grep -m1 '^ERROR' "$W/check.log")"
  rm -rf "$W"
done
