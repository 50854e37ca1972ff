#!/bin/bash
# fixc.sh "msg" files... : build, test, commit
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json,sys;d=json.load(open('/tmp/o.json'));print(len(d['passed']),d['failed']);sys.exit(len(d['passed'])!=33 or bool(d['failed']))" || exit 1
m="$1"; shift; git add "$@" && git commit -qm "$m" && git log --oneline | head -1
