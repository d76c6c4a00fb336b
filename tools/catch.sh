#!/bin/bash
# catch.sh [ID...]: runs the quick check of the property of each planted bug
# against a copy of /repo that has it, in a mount namespace of its own where
# that copy is /repo (and a copy of /verif is /verif). PROP and TIER override
# the property and the tier; JOBS runs several at a time.
cd "$(dirname "$0")/.." || exit 3
[ $# = 0 ] && set -- $(ls seeded)
one() {
	id=$1
	prop=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
	d=$(mktemp -d /tmp/catch.XXXXXX)
	cp -a /repo "$d/repo" && mkdir "$d/verif" && git archive "${REV:-HEAD}" | tar -x -C "$d/verif" --exclude=seeded
	[ -n "$REV" ] || cp -a mc sched run.sh KNOWN_FINDINGS.json "$d/verif/"
	git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$d"; return; }
	start=$(date +%s)
	unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && ./run.sh $prop ${TIER:-quick}" > "/tmp/catch.$id.log" 2>&1
	rc=$?
	if [ $rc = 1 ] && grep -q "VIOLATION property=$prop" "/tmp/catch.$id.log"; then what=caught; else what="MISSED rc=$rc"; fi
	echo "$id $prop $what $(($(date +%s) - start))s"
	rm -rf "$d"
}
for id in "$@"; do
	one "$id" &
	while [ "$(jobs -r | wc -l)" -ge "${JOBS:-1}" ]; do sleep 0.3; done
done
wait
