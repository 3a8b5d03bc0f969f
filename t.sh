# t.sh SECS ENTRY...: build once, run each
cd /verif; python3 tools/pipeline.py "${@:2}" 2>&1 | grep -iE "^error|panicked" -A6
for e in "${@:2}"; do echo "== $e"; bash r.sh $e $1; done
