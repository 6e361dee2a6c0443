#!/bin/bash
# debugging aid: run properties and print a summary
for p in "$@"; do echo "== $p"; timeout 850 $(if [ $p = N02 ]; then echo /repo/target/debug/mbi; else echo /repo/target/debug/mb; fi) $p --seed ${SEED:-1} --tier ${TIER:-quick} 2>/dev/null | grep -a RESULT | python3 -c "
import sys,json,collections
d=json.loads(sys.stdin.read().split('@@RESULT ',1)[1]); c=collections.Counter(f['clause'] for f in d['failures']); print(d['cases'],d.get('failed_cases'),'%.1fs'%d.get('seconds',0),dict(c),d['cover'])
seen=set()
for f in d['failures']:
  if f['clause'] not in seen: seen.add(f['clause']); print('   ',f['case'],f['clause'],f['detail'][:700])
"; done
