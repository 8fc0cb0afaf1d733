# builds demo.cpp (beside this file) against the objects of the build in /repo/_build and runs it: mk_run NP [args]
D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
V=/opt/ngs/6.2.2405; L=$V/lib/python3.12/site-packages/netgen_mesher.libs; S=$R/src
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NGS_NUM_THREADS=1
export PYTHONPATH=$V/lib/python3.12/site-packages PYTHONDONTWRITEBYTECODE=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
mk_build () {
  local inc="-I$S/base"; for d in utils distributed mesh coarsening factory smoothers solve precond ngs_extension linalg python; do inc="$inc -I$S/base/$d"; done
  inc="$inc -I$S/h1 -I$S/elasticity -I$S/stokes/common -I$S/stokes/ncfes -I$S/stokes/hdiv -isystem /usr/include/python3.12 -isystem $V/include/netgen -isystem $V/include/netgen/include"
  local defs="-DHAVE_CXA_DEMANGLE -DHAVE_DLFCN_H -DHAVE_NETGEN_SOURCES -DLAPACK -DNETGEN_PYTHON -DNGS_PYTHON -DNG_MPI_WRAPPER -DNG_PYTHON -DPARALLEL -DPYBIND11_SIMPLE_GIL_MANAGEMENT -DTCL -DUSE_PARDISO -DUSE_TIMEOFDAY -D_GLIBCXX_USE_CXX11_ABI=1"
  g++ $defs $inc -w -DMIS_AGG -DSPW_AGG -DELASTICITY -DSTOKES_AMG -DNGS_COMPATIBILITY -O1 -DNDEBUG -fPIC -march=core-avx2 -fabi-version=17 -std=c++17 -DMAX_SYS_DIM=3 -c "$D/demo.cpp" -o "$W/demo.o" || exit 99
  find "$R/_build/CMakeFiles" -name "*.o" ${MK_EXCLUDE:+! -name "$MK_EXCLUDE"} > "$W/objs"
  g++ -rdynamic -Wl,--no-as-needed -o "$W/demo" "$W/demo.o" @"$W/objs" -Wl,--disable-new-dtags -Wl,-rpath,$L -Wl,-rpath,$V/lib \
    $L/libngsolve.so $L/libngcomp.so $L/libngfem.so $L/libngla.so $L/libngbla.so $L/libngstd.so $V/lib/libmkl_rt.so.2 $V/lib/libiomp5.so $L/libnglib.so $L/libngcore.so \
    /usr/lib/x86_64-linux-gnu/libpython3.12.so -lm -ldl -lpthread || exit 98
}
mk_run () { local n=$1; shift; cd "$W"; LD_LIBRARY_PATH=$L:$V/lib timeout -k 5 60 mpirun -np $n "$W/demo" "$@"; }
