#!/bin/bash
# summary of one or more checks: tools/sum.sh [engine flags] PROP...
cd /verif; . /opt/vp/env.sh >/dev/null 2>&1
for p in "$@"; do timeout ${TO:-300} build/engine $FLAGS $p 2>&1 | cut -c1-${W:-260}; echo "rc=${PIPESTATUS[0]} $p"; done
