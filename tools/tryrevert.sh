#!/bin/bash
# tryrevert.sh COMMIT PROP...: runs the checks against a copy of /repo in which this fix commit is taken back.
c=$1; shift
d=$(mktemp -d /tmp/revXXXXXX)
cp -a /repo/inc /repo/src "$d/"
git -C /repo show "$c" -- inc src | patch -R -s -p1 -d "$d" || exit 9
for p in "$@"; do
    (cd /verif && VERIF_REPO=$d VERIF_BUILD=$d/b VERIF_OUT=$d/o VERIF_EVIDENCE=$d/e python3 lib/check.py "$p" "${TIER:-quick}" 2>&1 | grep -v "^Finished" | tail -${TAIL:-1} | sed "s/^/$c $p: /")
done
rm -rf "$d"
