#!/bin/bash
# Builds demo.cpp against the libraries in the current directory's _build and runs it on NP processes.
NP=@NP@
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=$T OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1
INC=$(find "$R/agi" "$R/pcu" "$R/support" "$R/partition" "$R/interfaces" -name '*.h' -printf '-I%h\n' | sort -u)
LIBS=$(find "$R/_build" -name 'lib*.a' | sort)
mpicxx -std=gnu++17 -g -w -I"$D" $INC -DLOCAL_ID_TYPE=int32_t -DLOCAL_ID_FTYPE=C_INT32_T -DHAS_PARMETIS -DHAS_ZOLTAN \
  "$D/demo.cpp" -o "$T/demo" -Wl,--start-group $LIBS -Wl,--end-group -lparmetis -lmetis \
  /usr/lib/x86_64-linux-gnu/libtrilinos_zoltan.so -lgfortran -lm || exit 2
cd "$T" && timeout -k 5 100 mpirun -np $NP ./demo < /dev/null
