#!/bin/bash
# developer helper: dev.sh driver prop np count [seed] [first] [mode] - run a driver directly and summarise
D=$(cd "$(dirname "$0")/.." && pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_PROC_BIND=false OMP_WAIT_POLICY=passive TMPDIR=${VTMP:-/tmp/w/tmp} OMP_NUM_THREADS=${T:-1}
export MALLOC_PERTURB_=${PERTURB:-1}
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1 ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:handle_abort=0
mkdir -p /tmp/w/tmp
R=/tmp/w/rep.$2.$3
for f in $R*; do [ -e "$f" ] && rm -f "$f"; done
/usr/bin/time -f "%es %MKB" timeout 300 mpiexec -np $3 ${DYABLO_VBUILD:-$D/build}/${7:-rel}/$1 --prop $2 --seed ${5:-1} --first ${6:-0} --count $4 --report $R 2>/tmp/w/err.$2.$3
tail -2 /tmp/w/err.$2.$3
ls $R.crash* 2>/dev/null | head
python3 - $R <<'P'
import sys,json,collections
n=nt=0;lab=collections.Counter();fails=[];last=None
for l in open(sys.argv[1]):
    d=json.loads(l)
    if 'start' in d: last=d['start']
    if 'nt' in d:
        n+=1; nt+=d['nt']; lab.update(d['labels'])
        if 'fail' in d: fails.append((d['i'],d['fail'],d['desc']))
print(n,'cases',nt,'nontrivial',len(fails),'fail; last started',last)
print(dict(lab))
for f in fails[:8]: print(f)
P
