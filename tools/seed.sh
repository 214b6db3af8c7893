#!/bin/bash
# tools/seed.sh ID...   confirm planted bugs in a scratch copy of /repo that is bind-mounted over /repo in a private mount namespace
V=$(dirname "$(dirname "$(realpath "$0")")")
SR=/tmp/sr
if [ "$1" != --inside ]; then
	[ -d $SR ] || cp -a /repo $SR
	exec unshare -Urm bash -c "mount --bind $SR /repo && exec bash $V/tools/seed.sh --inside $*"
fi
shift
cd /repo
for id in "$@"; do
	D=$V/seeded/$id
	git checkout -q -- . || exit 9
	git apply "$D/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; continue; }
	if ! bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; then :; fi
	T=$(python3 - <<'P'
import json
o=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b.get('tests')
p=set(map(str,o['passed'])); m=[x for x in s if str(x) not in p]
print('tests-ok' if not m and p else 'TESTS FAIL %d %s'%(len(m),m[:3]))
P
)
	W=$(mktemp -d); cp -a "$D/." $W/; rm -f $W/*.diff $W/meta.json
	timeout 300 bash $W/demo.sh >/tmp/seed.demo 2>&1; R1=$?
	P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
	C=$( [ -f $V/cg3v/checks/$(echo $P|tr A-Z a-z).py ] && (cd $V && ./check $P 2>&1 | grep -m1 -E '^VIOLATION|^BROKEN|Broken' ) || true)
	git checkout -q -- .
	bash /opt/vp/build.sh >/tmp/seed.log2 2>&1
	timeout 300 bash $W/demo.sh >/tmp/seed.demo0 2>&1; R0=$?
	rm -rf "$W"
	echo "$id [$P]: $T; demo patched rc=$R1 clean rc=$R0; check: ${C:-QUIET}"
done
