# all.sh CRATE REGEX [secs]: short results
LL=$(ls /verif/work/t-$1/release/deps/h_$1*.ll)
for h in $(grep -oE "fn [a-z0-9_]+\(\) \{" /verif/harness/$1/src/*.rs | sed 's/.*fn //; s/().*//' | grep -E "$2" | grep -vE "${EXCL:-^$}"); do
timeout $(( ${3:-60} + 20 )) /verif/work/t-symex/release/symex --ll $LL --harness $h --out /tmp/o-$1.jsonl --secs ${3:-60} > /tmp/s-$1.json
python3 - $h $1 <<'P'
import json,sys,collections
h,c=sys.argv[1:]
try:
    s=json.loads(open(f'/tmp/s-{c}.json').read().strip().splitlines()[-1])
except Exception as e:
    print(h,'ENGINE',e); sys.exit()
cov=collections.Counter(json.loads(l)['msg'] for l in open(f'/tmp/o-{c}.jsonl.cover')) if __import__('os').path.exists(f'/tmp/o-{c}.jsonl.cover') else {}
print(f"{h:20} ok {s['paths_ok']:6} viol {s['violations']} err {s['errors']} inc {s['incomplete']} to {s['timeout']} {s['wall_ms']/1000:.1f}s q {s['q_sat']+s['q_unsat']} {dict(cov)}",flush=True)
n=0
for l in open(f'/tmp/o-{c}.jsonl'):
    r=json.loads(l)
    if r['kind'] not in('ok','panic_ok') and n<2:
        n+=1; print('   ',r['kind'],r['msg'],r['inputs'],[x for x in r.get('stack',[])][:4])
P
done
