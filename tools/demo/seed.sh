#!/bin/bash
# seed.sh ID PROPERTY : takes the diff of the scratch clone /tmp/seed as planted bug ID (demo.cpp and NP are taken from /tmp/seed.demo)
D=/verif/seeded/$1; mkdir -p $D; git -C /tmp/seed diff > $D/patch.diff; git -C /tmp/seed checkout -q -- .
cp /verif/tools/demo/{mk.sh,demo.hpp} $D/
