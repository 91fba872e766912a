# build_seq.sh OUTDIR STAGING OUTPUT PROG...   builds sequential enumerators from ${VSRC:-/repo}; STAGING/OUTPUT 0 = shipped sizes
OUT=$1; SB=$2; OB=$3; shift 3
RT=${VSRC:-/repo}/runtime; S=$(cd $(dirname $0); pwd)
mkdir -p $OUT
DEF="-DTESTING=1 $XDEF"
[ "$SB" != 0 ] && DEF="$DEF -DNANOLOG_VERIF_STAGING_BUFFER_SIZE=$SB"
[ "$OB" != 0 ] && DEF="$DEF -DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=$OB"
CF="-std=c++17 -g1 ${OPT:--O1} -include array -fno-access-control -I$RT -I$S $DEF -w"
cd $S; P=""; bg() { "$@" & P="$P $!"; }
for f in Cycles Util Log NanoLog RuntimeLogger TimeTrace; do bg g++ $CF -c $RT/$f.cc -o $OUT/$f.o; done
bg g++ $CF -c ../engine/genstub.cc -o $OUT/genstub.o
for p in "$@"; do bg g++ $CF -DSEQ_POOL -c $p.cc -o $OUT/$p.o; done
for p in $P; do wait $p || exit 1; done
cd $OUT
for p in "$@"; do g++ $p.o Cycles.o Util.o Log.o NanoLog.o RuntimeLogger.o TimeTrace.o genstub.o -Wl,--wrap=malloc -Wl,--wrap=free -Wl,--wrap=exit -lrt -pthread -o $p || exit 1; done
