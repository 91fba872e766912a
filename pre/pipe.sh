# pipe.sh NAME [ref]  (cwd: has NAME.cc, NAME.h; ../rt has the runtime objects): preprocessor pipeline and reference build of one program
# exit 3: harness problem (reference does not build); 4: preprocessor failed; 5: its output does not compile or link
S=${VSRC:-/repo}; RT=$S/runtime; H=$(cd $(dirname $0); pwd); CF="-std=c++17 -O0 -include array -w -I$RT -I$H -I. -DPREPROCESSOR_NANOLOG"; PY=$(command -v python || command -v python3); R=${RTDIR:-../rt}
export PYTHONDONTWRITEBYTECODE=1
g++ $CF -DREF -c $1.cc -o $1.ref.o || exit 3
g++ $CF -E $1.cc -o $1.cc.i || exit 3
$PY -W ignore $S/preprocessor/parser.py --mapOutput=$1.map $1.cc.i && $PY -W ignore $S/preprocessor/parser.py --combinedOutput=gen_$1.cc $1.map || exit 4
g++ $CF -c $1.cc.ii -o $1.pp.o && g++ $CF -c gen_$1.cc -o gen_$1.o || exit 5
g++ $1.pp.o $1.ref.o gen_$1.o $R/snip_main.o $R/Cycles.o $R/Util.o $R/Log.o $R/NanoLog.o $R/RuntimeLogger.o $R/TimeTrace.o -lrt -pthread -o $1.exe || exit 5
