#!/bin/bash
# try.sh PATCH PROP... : run checks of this tree's working copy against /repo's HEAD with PATCH applied,
# in a scratch copy under /tmp (development aid; REVERSE=1 applies the patch in reverse).
set -u
patch=$(realpath "$1"); shift
w=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/verif"
cp -r /verif/harness /verif/run.py /verif/known_findings.txt "$w/verif/"
git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$w"
sed -i "s#=> /repo#=> $w/repo#" "$w/verif/harness/go.mod"
cd "$w/repo" && git init -q . 2>/dev/null
if ! git apply ${REVERSE:+-R} "$patch"; then echo "$patch: does not apply"; exit 9; fi
. /opt/vp/env.sh
if [ -z "${NOTEST:-}" ]; then go build ./... && go test ./... > "$w/t.txt" 2>&1 || { echo "existing tests FAIL"; grep -a -- "--- FAIL" "$w/t.txt" | head -5; }; fi
cd "$w/verif"
for p in "$@"; do
  out=$(python3 run.py "$p" 2>&1); rc=$?
  echo "$(basename $(dirname $patch))/$(basename $patch) $p rc=$rc $(echo "$out" | grep -a '^VIOLATION\|^C[0-9]* held\|BUILD FAILED\|could not' | head -1 | cut -c1-100)"
  [ -n "${SHOW:-}" ] && echo "$out" | head -${SHOW} | cut -c1-400
done
