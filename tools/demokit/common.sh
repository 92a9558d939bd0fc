# sourced by demo.sh: builds the real particle system from /repo (cwd) in a scratch directory and provides `run`
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
D=/usr/lib/x86_64-linux-gnu
CF="-std=c++14 -fopenmp -w -O0 -include /opt/vp/compat/trilinos13.hpp -I$repo -I/usr/include/trilinos -I$here -I/usr/include/vtk-9.1 -I/usr/include/eigen3 -DPARTICLE_SIMULATOR_MPI_PARALLEL -DPARTICLE_SIMULATOR_THREAD_PARALLEL -DOMPI_SKIP_MPICXX ${EXTRA:-}"
L=$(ls $D/libtrilinos_{kokkos*,teuchos*,tpetra,tpetraclassic,belos,belostpetra,epetra,zoltan}.so 2>/dev/null | sort -u)
V=$(for l in CommonCore CommonDataModel CommonExecutionModel IOXML sys; do echo $D/libvtk$l-9.1.so; done)
build() { # build <name> <source...>
    local out=$1; shift; local pids=() objs=() s o p
    for s in "$@"; do o=$w/$(basename $s).o; objs+=($o); mpicxx $CF -c $s -o $o & pids+=($!); done
    for p in "${pids[@]}"; do wait $p || { echo "compile error"; exit 99; }; done
    mpicxx -fopenmp -o $w/$out "${objs[@]}" /opt/vp/compat/libtpetra_int_int.so $L -lyaml-cpp $V -Wl,-rpath,/opt/vp/compat || exit 99
}
SYS="Sylinder/SylinderSystem Sylinder/SylinderConfig Sylinder/Sylinder Constraint/ConstraintCollector Constraint/ConstraintSolver Constraint/ConstraintOperator Constraint/BCQPSolver Trilinos/TpetraUtil Boundary/Boundary Util/Base64 Util/PointDistribution"
buildsys() { build dump $here/dump.cpp $(for s in $SYS; do echo $repo/$s.cpp; done); }
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none VTK_SMP_BACKEND_IN_USE=Sequential OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_mpi_yield_when_idle=1
run() { # run <dir> <ranks> <threads> args...: runs dump in <dir> under a time limit
    local d=$1 n=$2 t=$3; shift 3; (cd $d && OMP_NUM_THREADS=$t timeout ${LIMIT:-100} mpirun -n $n $w/${PROG:-dump} "$@" >log 2>&1 </dev/null); local rc=$?
    [ $rc = 0 ] || { echo "run with $n ranks ended with $rc"; tail -5 $d/log; }; return $rc
}
yaml() { # yaml key=value ...: RunConfig.yaml with defaults
    python3 - "$@" <<'Y' >RunConfig.yaml
import sys
c = dict(rngSeed='1', simBoxLow='[0, 0, 0]', simBoxHigh='[10, 10, 10]', simBoxPBC='[false, false, false]', viscosity='1', KBT='0', sylinderNumber='0', sylinderLength='1', sylinderDiameter='0.5', dt='0.01', timeTotal='1', timeSnap='1000', conResTol='1.0e-9', conMaxIte='5000', conSolverChoice='0', logLevel='5', timerLevel='6', linkKappa='100', linkGap='0.1', initPreSteps='0')
tail = ''
for a in sys.argv[1:]:
    k, v = a.split('=', 1)
    if k == 'boundaries': tail = v
    else: c[k] = v
print('\n'.join(f'{k}: {v}' for k, v in c.items())); print(tail)
Y
}
