#!/bin/bash
# development helper: tools/run.sh HARNESS args...   (runs an already built harness)
V=$(dirname $(dirname $(readlink -f $0)))
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NGS_NUM_THREADS=1 LD_LIBRARY_PATH=/opt/ngs/6.2.2405/lib/python3.12/site-packages/netgen_mesher.libs:/opt/ngs/6.2.2405/lib
h=$1; shift; mkdir -p /tmp/sd/w; cd /tmp/sd/w; exec ${VF_BUILD:-$V/build}/bin/$h "$@"
