#!/bin/bash
# Reverts each fix: commit of /repo in a scratch clone and runs the checks of
# the properties that known_findings.txt lists for it: each must report a
# violation.
here=$(cd "$(dirname "$0")/.." && pwd)
work=$(mktemp -d /tmp/ystring-revert-XXXXXX)
trap 'rm -rf "$work"' EXIT
grep -oE '^fixed: property=C[0-9]+ [0-9a-f]+' "$here/known_findings.txt" | sed 's/.*=//' | while read -r prop commit; do
    rm -rf "$work/r"
    git clone -q /repo "$work/r"
    if ! git -C "$work/r" -c user.name=x -c user.email=x@x revert --no-edit "$commit" >/dev/null 2>&1; then
        # Later fixes touch the same lines: leave those out too.
        git -C "$work/r" revert --abort 2>/dev/null
        echo "$prop $commit: conflicts, checking the commit before it instead"
        git -C "$work/r" checkout -q "$commit~1"
    fi
    YS_REPO="$work/r" python3 "$here/check.py" "$prop" quick >"$work/out" 2>&1 </dev/null
    echo "$prop $commit: exit $? $(grep -v '^VIOLATION' "$work/out" | tail -1 | cut -c1-150)"
done
