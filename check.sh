#!/bin/bash
# check.sh ID: build the harness against /repo's working tree and run the check of one property.
# exit 0: held; exit 1 with a VIOLATION line: broken; anything else: an error of the check.
ID=${1:?usage: check.sh ID}
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. "$HERE/env.sh"
BIN=$("$HERE/build.sh" race) || exit 3
# a program that imports the packages has to start (their init functions run in the harness as well)
SC=$(mktemp -d); trap 'rm -rf "$SC"' EXIT
(cd "$SC" && GOTRACEBACK=all timeout -s QUIT -k 10 90 "$BIN" start x) 2>"$SC/err"
if [ $? -ne 0 ] && grep -q 'github.com/Aize-Public/forego/' "$SC/err"; then
	RP=$HERE/evidence/replay/$ID.$VERIF_TIER.$VERIF_SEED.txt
	mkdir -p "$HERE/evidence/replay"
	head -c 20000 "$SC/err" >"$RP"
	cat >"$HERE/evidence/$ID.json" <<-E
	{"property": "$ID", "tier": "$VERIF_TIER", "seed": $VERIF_SEED, "level": "exploration", "wall_s": $SECONDS,
	 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "a program importing the packages is started", "samples": ["it did not start, see $RP"]}}
	E
	head -5 "$SC/err"
	echo "violated: [workload:start] a program importing the packages does not start"
	echo "VIOLATION property=$ID replay=$RP"
	exit 1
fi
"$BIN" check "$ID"
