# build_fmtpp.sh OUTDIR: OUTDIR/chunk*.cc through the preprocessor pipeline of ${VSRC:-/repo}; a chunk the preprocessor or the compiler rejects leaves chunkN.err
D=$1; S=${VSRC:-/repo}; RT=$S/runtime; F=$(cd $(dirname $0); pwd); cd $D || exit 1
export CF="-std=c++17 -include array -w -I$RT -I$F -I. -DPREPROCESSOR_NANOLOG" PY=$(command -v python || command -v python3) P=$S/preprocessor/parser.py PYTHONDONTWRITEBYTECODE=1
OBJ=""; for f in Cycles Util Log NanoLog RuntimeLogger TimeTrace; do echo "g++ $CF -O1 -c $RT/$f.cc -o $f.o || exit 255"; OBJ="$OBJ $f.o"; done > jobs
echo "g++ $CF -O1 -c $F/fmt_main.cc -o fmt_main.o || exit 255" >> jobs
xargs -P ${JOBS:-8} -d '\n' -I{} sh -c "{}" < jobs || exit 1
export OBJ
one() { c=$1
    for u in $c ${c}b; do [ -f $u.cc ] || continue; g++ $CF -E $u.cc -o $u.cc.i || return 255; $PY -W ignore $P --mapOutput=$u.map $u.cc.i > $c.err 2>&1 || return 0; done
    $PY -W ignore $P --combinedOutput=gen_$c.cc $c.map $([ -f ${c}b.map ] && echo ${c}b.map) > $c.err 2>&1 || return 0
    for u in $c ${c}b; do [ -f $u.cc ] || continue; g++ $CF -O0 -c $u.cc.ii -o $u.o > $c.err 2>&1 || return 0; done
    g++ $CF -O0 -c gen_$c.cc -o gen_$c.o > $c.err 2>&1 && g++ $c.o $([ -f ${c}b.o ] && echo ${c}b.o) gen_$c.o fmt_main.o $OBJ -lrt -pthread -o $c > $c.err 2>&1 && rm -f $c.err
    rm -f $c.cc.i $c.cc.ii gen_$c.cc gen_$c.o $c.o; return 0; }
export -f one
ls chunk*.cc | grep -v 'b.cc$' | sed 's/\.cc$//' | xargs -P ${JOBS:-8} -I{} bash -c "one {} || exit 255"
