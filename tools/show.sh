python3 - "$@" <<'P'
import json,sys
i=sys.argv[1]; t=sys.argv[2] if len(sys.argv)>2 else 'quick'
rows=[json.loads(l) for l in open(f'/verif/build/{i}-{t}.out') if l.strip()]
rows.sort(key=lambda g:-g.get('wall_s',0))
for g in rows[:25]:
    print(g.get('scenario') or g.get('group'), {k:g.get(k) for k in ('bound','executions','states','transitions','distinct_traces','complete','wall_s')}, (g.get('violation') or '')[:200])
print(len(rows), sum(g.get('wall_s',0) for g in rows))
P
