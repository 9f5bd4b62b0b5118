#!/bin/bash
# tools/mut.sh FILE 'perl-expr' CMD... : apply a perl substitution to a /repo file, run CMD, restore
f=/repo/$1; e=$2; shift 2
cp "$f" /tmp/mut.bak; perl -0pi -e "$e" "$f"; if cmp -s "$f" /tmp/mut.bak; then echo "NO CHANGE"; fi
"$@"; rc=$?
cp /tmp/mut.bak "$f"; exit $rc
