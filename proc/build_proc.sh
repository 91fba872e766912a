# build_proc.sh OUTDIR STAGING OUTPUT NAME...   for each NAME.cc (in OUTDIR or here): NAME17 (C++17 NanoLog) and NAMEpp (preprocessor NanoLog), from ${VSRC:-/repo}
D=$1; SB=$2; OB=$3; shift 3; S=${VSRC:-/repo}; RT=$S/runtime; H=$(cd $(dirname $0); pwd); mkdir -p $D; cd $D || exit 1
CF="-std=c++17 -O1 -include array -w -I$RT -I$H -I."
[ "$SB" != 0 ] && CF="$CF -DNANOLOG_VERIF_STAGING_BUFFER_SIZE=$SB"; [ "$OB" != 0 ] && CF="$CF -DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=$OB"
P=""; bg() { ( "$@" ) & P="$P $!"; }; fin() { for p in $P; do wait $p || exit 1; done; P=""; }
PY=$(command -v python || command -v python3)
one() { # name
    g++ $CF -DPREPROCESSOR_NANOLOG -E $1.cc -o $1.cc.i && $PY $S/preprocessor/parser.py --mapOutput=$1.map $1.cc.i >$1.plog 2>&1 && $PY $S/preprocessor/parser.py --combinedOutput=gen_$1.cc $1.map >>$1.plog 2>&1 || { cat $1.plog >&2; return 1; }
    g++ $CF -O0 -DPREPROCESSOR_NANOLOG -c $1.cc.ii -o $1.pp.o || return 1
    g++ $CF -DPREPROCESSOR_NANOLOG -c gen_$1.cc -o gen_$1.o
}
for f in Cycles Util Log NanoLog RuntimeLogger TimeTrace; do bg g++ $CF -c $RT/$f.cc -o $f.o; bg g++ $CF -DPREPROCESSOR_NANOLOG -c $RT/$f.cc -o $f.pp.o; done
bg g++ $CF -c $H/../engine/genstub.cc -o genstub.o
for n in "$@"; do [ -f $n.cc ] || cp $H/$n.cc .; bg one $n; bg g++ $CF -O0 -c $n.cc -o $n.17.o; done; fin
for n in "$@"; do bg g++ $n.17.o Cycles.o Util.o Log.o NanoLog.o RuntimeLogger.o TimeTrace.o genstub.o -lrt -pthread -o ${n}17; bg g++ $n.pp.o gen_$n.o Cycles.pp.o Util.pp.o Log.pp.o NanoLog.pp.o RuntimeLogger.pp.o TimeTrace.pp.o -lrt -pthread -o ${n}pp; done; fin
