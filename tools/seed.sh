#!/bin/bash
# Turn the uncommitted change in /repo into the planted bug ID (demo.sh and meta.json lie in
# /verif/seeded/ID already): checks that it builds, passes the tests, and that the demonstration
# tells it from the unchanged tree. usage: seed.sh ID
# REPO and VP name another copy of the repository and of its build scripts.
id=$1; d=/verif/seeded/$id; mkdir -p "$d"
repo=${REPO:-/repo}; vp=${VP:-/opt/vp}
cd $repo || exit 1
[ -n "$(git status --porcelain)" ] && git diff > "$d/patch.diff"
git checkout -q -- .
git apply --check "$d/patch.diff" || exit 1
run() { bash "$d/demo.sh" > /tmp/demo.log 2>&1; echo $?; }
git apply "$d/patch.diff"
if ! bash $vp/build.sh > /tmp/seed_build.log 2>&1; then echo "$id: DOES NOT BUILD"; tail -5 /tmp/seed_build.log; git checkout -q -- .; exit 1; fi
t=$(bash $vp/test.sh /tmp/seed_t.json | tail -1); with=$(run)
git checkout -q -- .
bash $vp/build.sh > /tmp/seed_build.log 2>&1
without=$(run)
rm -f $repo/crates/math-core/tests/snapshots/wiki_test.html.new
echo "$id: tests $t; demo with patch $with, without $without"
