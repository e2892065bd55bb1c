#!/bin/bash
# seedcheck.sh ID...: development helper. Verifies planted changes in a scratch clone: the demo
# passes without and fails with the patch, the stable tests still pass, and the check reports it.
. /opt/vp/env.sh
root=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	s=$root/seeded/$id
	w=/tmp/sd/$id
	rm -rf "/tmp/sd/$id"; mkdir -p /tmp/sd
	git clone -q /repo "$w" || exit 1
	prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
	printf '%-28s %s ' "$id" "$prop"
	(cd "$w" && timeout 300 bash "$s/demo.sh" >/tmp/sd/$id.clean 2>&1) && printf 'demo-ok ' || printf 'DEMO-FAILS-CLEAN '
	(cd "$w" && git apply "$s/patch.diff" 2>/tmp/sd/$id.apply) || printf 'PATCH-DOES-NOT-APPLY '
	(cd "$w" && go build ./... >/tmp/sd/$id.build 2>&1) || printf 'BUILD-FAILS '
	sed "s,/repo,$w,g" /opt/vp/test.sh > /tmp/sd/$id.test.sh
	bash /tmp/sd/$id.test.sh /tmp/sd/$id.json >/tmp/sd/$id.testlog 2>&1
	python3 - "$id" <<'P'
import json,sys
r=json.load(open('/tmp/sd/%s.json'%sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x,k):
    v=x.get(k,x) if isinstance(x,dict) else x
    return v
base=b.get('stable') or b.get('passed') or b.get('tests') or b
res=r.get('passed') or r
miss=[t for t in base if t not in (res if not isinstance(res,dict) else [k for k,v in res.items() if v in ('pass','passed',True)])]
print('tests-ok' if not miss else 'TESTS-FAIL %d %s'%(len(miss),miss[:3]),end=' ')
P
	(cd "$w" && timeout 300 bash "$s/demo.sh" >/tmp/sd/$id.patched 2>&1) && printf 'DEMO-PASSES-PATCHED ' || printf 'demo-fails '
	for c in ${CHECKS:-$prop}; do
		/tmp/checker -out /tmp/sd/out -repo "$w" $c >/tmp/sd/$id.$c.check 2>&1
		case $? in 0) printf '%s:MISSED ' $c;; 1) printf '%s:caught ' $c;; *) printf '%s:ERROR ' $c;; esac
	done
	echo
	[ -n "$KEEP" ] || rm -rf "/tmp/sd/$id"
done
