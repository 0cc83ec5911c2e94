#!/bin/bash
# mkseed.sh ID: takes the diff of /tmp/sc (scratch copy) and makes seeded/ID with demo.sh; demo.rs and meta.json are written by hand
set -e
V=/verif; d=$V/seeded/$1; mkdir -p $d
git -C /tmp/sc diff > $d/patch.diff
cp $V/tools/demo.sh $V/tools/demo.lock $d/
git -C /tmp/sc checkout -q -- .
