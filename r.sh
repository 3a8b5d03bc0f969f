# r.sh entry time [flags]
timeout 800 /verif/build/rsx/release/rsx /verif/build/t.ll --entry $1 --threads 8 --time ${2:-60} --out /tmp/o.json "${@:3}" 2>&1 | grep -v "rsx: [0-9]*s" | cut -c1-300
