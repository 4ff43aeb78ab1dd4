import json,glob,os,re
caught={'character-position':'drive_chars_nest','compact-field-length':'compact_core','compact-right-length':'codec_empty_short','distance-of-events-only':'event_core','division-euclid':'ex_prec_actions','heap-last-child':'group_core','hint-outlives-step':'hint_core','identity-shortcut':'maps_core','item-packed-order':'item_order','items-sorted-by-origin':'rec_core','max-nulling-lhs':'info_null','negative-capacity':'hintcap_memory','null-forest-once':'forest_one','nulling-handle-step':'node_null_compact','nulling-pair-order':'eval_null','one-gensym-deep':'prog_long','product-of-nine':'cart_large','reachable-by-last-item':'rec_core','reference-forwards-lhs':'ref_any','reset-keeps-completions':'reset_within_core','same-factors-once':'eval_core_many','serde-nulling-pairs':'json_serde_null4','stale-predictions':'rec_core','truncate-overlap':'vec2d_step_u32','vec2d-serde-sets':'vec2d_json_serde'}
try: caught.update(json.load(open('/verif/kit/caught.json')))
except FileNotFoundError: pass
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    n=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append('| %s | %s | %s | %s |'%(n,m['property'],m['needs'].replace('|','/').replace('\n',' '),caught.get(n,'?')))
p='/verif/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeded -->.*<!-- end seeded -->',lambda _:'<!-- seeded -->\n'+'\n'.join(rows)+'\n<!-- end seeded -->',s,flags=re.S)
open(p,'w').write(s)
