#!/bin/bash
# Development helper: tries planted bugs in a copy of /repo and /verif, so that /repo is left alone.
#   lab.sh make DIR            a lab in DIR (repo/ and verif/)
#   lab.sh sync DIR            brings verif/ and repo/ up to date, undoing changes
#   lab.sh try DIR ID [check…] demo, build, tests and checks for seeded/ID of /verif
#   lab.sh grab DIR ID         DIR/repo's uncommitted changes become seeded/ID/patch.diff
set -u
cmd=$1; lab=$2; shift 2
subst() { sed -i "s/elif not ctx.violations:/elif False:/" $lab/verif/bin/check.py; sed -i "s#\"/repo/#\"$lab/repo/#" $lab/verif/harness/Cargo.toml $lab/verif/harness/serve/Cargo.toml; sed -i "s#/verif/.build#$lab/verif/.build#" $lab/verif/bin/env.sh; }
sync() {
  git -C $lab/repo checkout -q -- . ; git -C $lab/repo pull -q --ff-only /repo HEAD 2>/dev/null
  rsync -a --delete --exclude .git --exclude .build --exclude .work --exclude evidence --exclude seeded /verif/ $lab/verif/ 2>/dev/null ||
    (cd /verif && tar cf - --exclude=.git --exclude=.build --exclude=.work --exclude=evidence --exclude=seeded . | tar xf - -C $lab/verif)
  subst
}
case $cmd in
make) mkdir -p $lab; cp -a /repo $lab/repo; cp -a /verif $lab/verif; rm -rf $lab/verif/.work $lab/verif/.git; sync;;
sync) sync;;
grab) mkdir -p /verif/seeded/$1; git -C $lab/repo diff > /verif/seeded/$1/patch.diff; [ -f /verif/seeded/$1/demo.sh ] || cp /verif/seeded/s01/demo.sh /verif/seeded/$1/;;
try)
  id=$1; shift; d=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  sync
  demo() { (sed 's#^\. /opt/vp/env.sh#. /opt/vp/env.sh; cd '$lab/repo'#' $d/demo.sh > $lab/demo.$id.sh; mkdir -p $lab/d.$id; cp -r $d/* $lab/d.$id/; cp $lab/demo.$id.sh $lab/d.$id/demo.sh; cd $lab/repo; bash $lab/d.$id/demo.sh; r=$?; rm -rf $lab/d.$id $lab/demo.$id.sh; exit $r); }
  if [ -z "${NODEMO:-}" ]; then demo > $lab/demo0.log 2>&1; echo "$id demo clean: $?"; fi
  git -C $lab/repo apply $d/patch.diff || exit 1
  if [ -z "${NODEMO:-}" ]; then
    (sed 's#cd /repo#cd '$lab/repo'#' /opt/vp/env.sh > $lab/env.sh; . $lab/env.sh
     cargo test --workspace --exclude pygoko --all-targets --no-run --offline > $lab/build.log 2>&1) || { echo "$id BUILD FAILS"; grep -E '^error' -A8 $lab/build.log | head -30; exit 1; }
    (. $lab/env.sh; cargo test --workspace --exclude pygoko --no-fail-fast --offline -- --test-threads 8 > $lab/test.log 2>&1; python3 /opt/vp/results.py $lab/test.json cargo:$lab/test.log) >/dev/null 2>&1
    python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$lab/test.json'))
base=set(b.get('stable',b.get('passed',[])))
m=sorted(base-set(r.get('passed',[])))
print("$id tests:", "all stable pass" if not m else "FAIL %s" % m[:8])
PY
    demo > $lab/demo1.log 2>&1; echo "$id demo patched: $?"; tail -2 $lab/demo1.log
  fi
  for c in ${@:-$P}; do echo "$id $(cd $lab/verif; VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 bin/check.py $c quick 2>&1 | cut -c1-300 | tail -2)"; done
  git -C $lab/repo checkout -q -- .;;
esac
