#!/bin/bash
# Development helper: test /repo's working tree, commit it as a fix and record it. fix.sh Cxx "fix: msg" "what failed"
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json | tail -1
python3 -c "import json,sys; sys.exit(len(json.load(open('/tmp/t.json'))['failed'])>0)" || exit 1
git -C /repo commit -qam "$2" && cd /verif && python3 tools/addfix.py $1 $(git -C /repo rev-parse --short=7 HEAD) "$3"; git -C /repo status --short
