# build1.sh OUTDIR STAGING OUTPUT SCENFILES...   (VSRC overrides the source tree)
OUT=$1; SB=$2; OB=$3; shift 3
RT=${VSRC:-/repo}/runtime; E=$(cd $(dirname $0); pwd)
mkdir -p $OUT
DEF="-DTESTING=1 -DNANOLOG_VERIF_STAGING_BUFFER_SIZE=$SB -DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=$OB $XDEF"
CF="-std=c++17 -g1 -O1 -include array -fno-access-control -I$RT -I$E $DEF -w"
TS="-fsanitize=thread -fno-builtin -fno-tree-loop-distribute-patterns"
cd $E; P=""
bg() { "$@" & P="$P $!"; }
for f in Cycles Util Log NanoLog RuntimeLogger TimeTrace; do bg g++ $CF $TS -c $RT/$f.cc -o $OUT/$f.o; done
bg g++ $CF -O2 -fPIC -fvisibility=hidden -shared -Wl,-Bsymbolic dec.cc genstub.cc $RT/Log.cc $RT/Cycles.cc $RT/Util.cc -o $OUT/libdec.so
bg g++ $CF -c genstub.cc -o $OUT/genstub.o
bg g++ $CF -O2 -c oracle.cc -o $OUT/oracle.o
bg g++ -std=c++17 -g1 -O2 -w -fno-builtin -I$E -c mc.cc -o $OUT/mc.o
bg g++ $CF -O2 -c scenlib.cc -o $OUT/scenlib.o
for s in "$@"; do bg g++ $CF $TS -c $s.cc -o $OUT/$s.o; done
for p in $P; do wait $p || exit 1; done
cd $OUT
W=""; for w in memcpy memmove memset bzero strlen; do W="$W -Wl,--wrap=$w"; done
g++ -no-pie -rdynamic mc.o Cycles.o Util.o Log.o NanoLog.o RuntimeLogger.o TimeTrace.o genstub.o oracle.o scenlib.o $(for s in "$@"; do echo $s.o; done) $W -L. -ldec -Wl,-rpath,$OUT -lrt -pthread -ldl -o mcx || exit 1
