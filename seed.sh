#!/bin/bash
# dev helper: seed.sh ID -- verifies a planted bug in a scratch copy: demo passes without, fails with the patch (build and tests: vcheck --bug ID)
id=$1; d=/verif/seeded/$id; t=$(mktemp -d /tmp/seedXXXX); cp -a /repo/include /repo/src /repo/tests $t/ 2>/dev/null || cp -a /repo/include /repo/src $t/
cd $t; git init -q . ; cp -a $d $t/dd; rm -f $t/dd/patch.diff $t/dd/meta.json
bash $t/dd/demo.sh >/tmp/seed_$id.out 2>&1; a=$?
git apply $d/patch.diff || echo "patch does not apply"
bash $t/dd/demo.sh >>/tmp/seed_$id.out 2>&1; b=$?
echo "$id: unpatched exit $a, patched exit $b"; rm -rf "$t"
