# rt.sh NAME out flags: build a mcrt harness
s=$1; o=$2; shift 2
I="-I${REPO:-/repo}/src -I/verif/lib -I/verif/harness"
g++ -std=c++17 -pthread -w -fno-strict-aliasing $I -O1 -g1 -fsanitize=thread -fno-omit-frame-pointer "$@" -c /verif/harness/$s.cpp -o $o.o 2>&1 | grep -E "error|undefined" | cut -c1-300 | head -8
g++ -std=c++17 -pthread -w -fno-strict-aliasing $I -O2 -g1 -c /verif/lib/mcrt.cpp -o $o.rt.o && g++ -pthread -rdynamic $o.o $o.rt.o -o $o -ldl
