#!/bin/bash
# developer helper: rebuild /repo and run its tests, terse
cd /repo && bash /opt/vp/build.sh >/tmp/rt.b.log 2>&1 || { grep -m5 -A5 "error:" /tmp/rt.b.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.t.log 2>&1; tail -4 /tmp/rt.t.log; git status --short | head -5
