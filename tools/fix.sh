#!/bin/bash
# mirror src -> toolbox copies and commit a fix
set -e
cd /repo
for f in flat mesh rib shape shell triangleground; do cmp -s src/$f.cc toolbox/src/$f.cc || cp src/$f.cc toolbox/src/$f.cc; done
for f in src/enve/*.hxx src/enve.hh; do t=toolbox/$f; cmp -s $f $t || cp $f $t; done
git diff --stat
git commit -qam "$1"
git log --oneline | head -1
