# cc.sh src out flags...
s=$1; o=$2; shift 2
g++ -std=c++17 -pthread -w -fno-strict-aliasing -I${REPO:-/repo}/src -I/verif/lib -I/verif/harness ${OPT:--O1} "$@" /verif/harness/$s.cpp -o $o 2>&1 | grep -E "error|undefined" | cut -c1-300 | head -8
