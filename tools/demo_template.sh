#!/bin/bash
# builds the demonstration against the library just built in the current directory and runs it
here=$(dirname "$(readlink -f "$0")")
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_rmaps_base_oversubscribe=1 OMP_NUM_THREADS=1 TMPDIR=$T
g++ -std=c++17 -O1 -w $(mpicxx --showme:compile) -I$R/_build -I$R/_build/src -I$R/src -I$R/src/Interface -I$R/src/Optimization -I$R/src/LinAlg \
  -I$R/src/Utils -I$R/src/ExecBackends -I/usr/include/eigen3 -I/usr/include/suitesparse "$here/demo.cpp" -o "$T/demo" $R/_build/src/libhiop.a \
  -lumfpack -lcholmod -lamd -lcolamd -lsuitesparseconfig -llapack -lblas -lmetis -lgfortran -lm -lpthread $(mpicxx --showme:link) || exit 99
cd "$T"
timeout 200 ./demo
