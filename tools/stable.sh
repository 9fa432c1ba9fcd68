#!/bin/bash
# do the repository's stable tests pass on the working tree?
bash /opt/vp/build.sh >/tmp/st_build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/st_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
python3 - <<'E'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/st.json'))['passed'])
m=sorted(b-o); print('stable ok' if not m else 'MISSING '+str(m)); sys.exit(bool(m))
E
