timeout 800 /verif/build/rsx/release/rsx /verif/build/t.ll --entry $1 --threads ${3:-8} --time ${2:-60} --out /tmp/o1.json "${@:4}" 2>&1 | grep -v "rsx: [0-9]*s" | tail -1 | cut -c1-200
