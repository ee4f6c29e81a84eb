#!/bin/bash
# Compares the digests of all traces of every check between 8 workers, 3 workers and a repetition. Usage: determinism.sh [runs] [seed]
cd "$(dirname "$0")/../sim" || exit 2
runs=${1:-2000} seed=${2:-1} bad=0
t=$(mktemp -d)
for p in $(seq -f P%02.0f 1 25; echo P27); do
    for w in 8 3 8; do
        ./target/debug/nt_sim check "$p" --runs "$runs" --seed "$seed" --workers "$w" --evidence "$t/e" --replays "$t" >/dev/null 2>&1
        grep -E 'digest_of_all|that_differed' "$t/e"
    done | sort | uniq -c | awk -v p="$p" '$1 != 3 || /differed": [1-9]/ { bad = 1; print p, $0 } END { exit bad }' || bad=1
done
rm -r "$t"
[ $bad = 0 ] && echo "all the same"
exit $bad
