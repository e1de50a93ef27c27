#!/bin/bash
# development helper: run several checks, show verdict lines
cd "$(dirname "$0")"
for c in "$@"; do ./check.sh $c ${TIER:-quick} > /tmp/chk.$c.out 2>&1; rc=$?; echo "$c rc=$rc $(grep -v '^$' /tmp/chk.$c.out | cut -c1-${W:-900} | tail -${L:-8})"; done
