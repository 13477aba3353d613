#!/bin/bash
# tools/tryseed.sh ID [check...]: in the scratch worktree /tmp/seed, confirm that the seeded change applies, builds,
# passes the tests of the modules it touches and that its demo tells it apart; then run the named checks against it.
id=$1; shift; S=/verif/seeded/$id; W=/tmp/seed
. /tmp/env.sh
git -C $W checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C $W checkout -q -- . 
mods=$(grep '^+++ b/' $S/patch.diff | sed 's/^+++ b.//' | while read f; do d=$(dirname $f); while [ ! -f $W/$d/go.mod ]; do d=$(dirname $d); done; echo $d; done | sort -u)
(cd $W && timeout 290 bash $S/demo.sh >/tmp/seed.demo0 2>&1) && echo "demo ok on clean tree" || { echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/seed.demo0; }
git -C $W apply $S/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
for m in $mods; do (cd $W/$m && go build -o /dev/null ./... && go test -vet=off -count=1 ./... >/tmp/seed.test 2>&1) && echo "tests of $m pass" || { echo "TESTS OF $m FAIL"; grep -E "^(---|FAIL)" /tmp/seed.test | head -5; }; done
(cd $W && timeout 290 bash $S/demo.sh >/tmp/seed.demo1 2>&1) && echo "DEMO PASSES WITH THE CHANGE" || { echo "demo fails with the change:"; grep -v "^ok\|^FAIL" /tmp/seed.demo1 | tail -3; }
for c in "$@"; do (cd /verif && VERIF_REPO=$W bin/check $c > /tmp/seed.check 2>&1; echo "check $c: exit $?"; grep -a "VIOLATION" /tmp/seed.check | head -1); done
git -C $W checkout -q -- .
