#!/bin/bash
# development helper: build harness and run: tools/dev.sh HARNESS args
cd $(dirname $(dirname $(readlink -f $0))); python3 -B -c "
import sys; sys.path.insert(0,'tools'); import build, spec; build.build(['$1'], spec.HARNESS)" && exec tools/run.sh "$@"
