#!/bin/bash
# campaign.sh LANES OUTDIR [FIRST-CHECKS...]: applies the small changes of tools/mutate to scratch copies of /repo in random order and
# runs the checks on each with a fraction of their cases; OUTDIR/laneN.tsv gets one line per change
lanes=$1; out=$2; shift 2
order="${*:-C04 C05 C08 C06 C03 C17 C09 C20 C11 C13 C15 C14 C12 C22 C07 C01 C02 C21 C19 C10 C23 C16}"
mkdir -p "$out"
(cd /verif/tools/mutate && go build -o "$out/mutate" .) || exit 1
"$out/mutate" list /repo >"$out/list.tsv"
[ -f "$out/order" ] || shuf --random-source=<(yes 7) -i 0-$(($(wc -l <"$out/list.tsv") - 1)) >"$out/order"
export GOFLAGS=-mod=mod GOPROXY=off VH_W=2 VH_CPU=10 VH_SCALE=${VH_SCALE:-4}
lane() {
	d="$out/l$1"; mkdir -p "$d"; : >>"$out/lane$1.tsv"
	cp -a /verif/harness "$d/harness"; mkdir -p "$d/vd"; cp /verif/known_findings.jsonl "$d/vd/"
	sed -i "s#=> /repo#=> $d/repo#" "$d/harness/go.mod"
	[ -d "$d/repo" ] || cp -a /repo "$d/repo"
	export VH_DIR="$d/vd" TMPDIR="$d/tmp"; mkdir -p "$TMPDIR"
	awk -v L=$lanes -v k=$1 'NR%L==k' "$out/order" | while read -r n; do
		grep -q "^$n	" "$out/lane$1.tsv" && continue
		git -C "$d/repo" checkout -q -- .
		"$out/mutate" apply "$d/repo" "$n"
		desc=$(sed -n "$((n + 1))p" "$out/list.tsv" | cut -f2-)
		if ! (cd "$d/harness" && go build -trimpath -o "$d/vh" . ) >/dev/null 2>&1; then
			printf '%s\tnobuild\t%s\n' "$n" "$desc" >>"$out/lane$1.tsv"; continue
		fi
		k=survived
		for c in $order; do
			"$d/vh" check $c >"$d/log" 2>&1; rc=$?
			if [ $rc = 1 ]; then k=$c; break; fi
			if [ $rc != 0 ]; then k="$k?$c"; fi
		done
		printf '%s\t%s\t%s\n' "$n" "$k" "$desc" >>"$out/lane$1.tsv"
	done
}
for i in $(seq 0 $((lanes - 1))); do lane $i & done
wait
