# run every rule (or the ids given) against /repo without re-extracting; prints ids that fail and total time
cd /verif; export VERIF_NODUMP=1
export D=$(mktemp -d /tmp/ckXXXX)
ids=${@:-$(python3 -c "import sys;sys.path[:0]=['engine','.'];import rules;print(*sorted(rules.RULES))")}
printf '%s\n' $ids | xargs -P7 -I{} sh -c 's=$(date +%s); timeout 900 python3 check.py {} > $D/ck.{}.log 2>&1; c=$?; t=$(( $(date +%s)-s )); [ $c -ne 0 -o $t -gt 60 ] && echo "{} rc=$c ${t}s $(grep -m1 "^  \[" $D/ck.{}.log | cut -c1-140)"'; true
rm -rf "$D"
