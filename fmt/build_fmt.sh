# build_fmt.sh OUTDIR  -- compiles OUTDIR/chunk*.cc against ${VSRC:-/repo} (C++17 NanoLog)
D=$1; RT=${VSRC:-/repo}/runtime; F=$(cd $(dirname $0); pwd); cd $D || exit 1
CF="-std=c++17 -include array -w -I$RT -I$F"
for f in Cycles Util Log NanoLog RuntimeLogger TimeTrace; do echo "g++ $CF -O1 -c $RT/$f.cc -o $f.o"; done > jobs
echo "g++ $CF -c $F/../engine/genstub.cc -o genstub.o" >> jobs; echo "g++ $CF -O1 -c $F/fmt_main.cc -o fmt_main.o" >> jobs
for c in chunk*.cc; do echo "g++ $CF -O0 -c $c -o ${c%.cc}.o"; done >> jobs
xargs -P ${JOBS:-8} -d '\n' -I{} sh -c "{} || exit 255" < jobs || exit 1
for c in chunk*.cc; do echo "g++ ${c%.cc}.o fmt_main.o Cycles.o Util.o Log.o NanoLog.o RuntimeLogger.o TimeTrace.o genstub.o -lrt -pthread -o ${c%.cc}"; done > jobs
xargs -P ${JOBS:-8} -d '\n' -I{} sh -c "{} || exit 255" < jobs
