# r.sh CRATE HARNESS [secs]: one harness on what b.sh built
o=$(mktemp -u /tmp/o.XXXXXX)
timeout $(( ${3:-60} + 20 )) /verif/work/t-symex/release/symex --ll $(ls /verif/work/t-$1/release/deps/h_$1*.ll) --harness $2 --out $o --secs ${3:-60} | sed 's/,"funcs.*//; s/"q_unknown.*wall_ms/"wall_ms/; s/"paths_panic_ok":0,//'
grep -vE '"kind":"(ok|panic_ok)"' $o 2>/dev/null | cut -c1-300 | head -2; sort $o.cover 2>/dev/null | uniq -c | sed 's/{.*"msg"://' | head | tr '\n' ' '; echo
rm -f $o $o.cover
