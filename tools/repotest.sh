#!/bin/bash
# builds /repo and reports any stable test that does not pass
bash /opt/vp/build.sh >/tmp/vp_build.log 2>&1 || { tail -30 /tmp/vp_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp_t.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/vp_t.json'))['passed']
m=[x for x in b if x not in t]
print(len(b)-len(m), 'of', len(b), 'stable pass;', 'missing:', m[:10])
raise SystemExit(1 if m else 0)
PY
