#!/bin/bash
# Builds demo.cc against /repo's headers and its freshly built library and runs
# it (in a scratch directory): exit 0 when the property holds on the example.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$W" -delete' EXIT
RANKS=$(cat "$D/ranks" 2>/dev/null || echo 1)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 \
  OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none \
  OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader \
  OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated \
  OMPI_MCA_oob=tcp OMPI_MCA_oob_tcp_if_include=lo \
  DEAL_II_NUM_THREADS=$(cat "$D/threads" 2>/dev/null || echo 1) \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8
I=/usr/lib/x86_64-linux-gnu/openmpi
set -e
g++ -O0 -w -DNDEBUG -std=c++17 -I/repo/include -I"$D" -isystem $I/include \
  -isystem $I/include/openmpi -isystem /usr/include/petsc \
  -isystem /usr/include/trilinos -isystem /usr/include/hdf5/openmpi \
  -isystem /usr/include/scotch -isystem /usr/include/suitesparse \
  -isystem /usr/include/opencascade -isystem /usr/include/slepc \
  -isystem /opt/vp/compat/include -include boost/container_hash/hash.hpp \
  -include deal.II/base/multithread_info.h \
  -include deal.II/distributed/tria_base.h -include deal.II/lac/vector.h \
  "$D/demo.cc" /repo/_build/libmfmg.a -fuse-ld=gold -L$I/lib \
  $(cat "$D/link.txt") -o "$W/demo"
cd "$W"
timeout 120 mpiexec -n "$RANKS" ./demo
