#!/bin/bash
# Runs the repository's tests and compares with the stable list.
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1; tail -2 /tmp/test.log; head -c 300 /tmp/out.json
