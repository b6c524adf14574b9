# sourced by demo.sh: builds the scripted simulator driver and works in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -r "$T"' EXIT
gcc -w -O1 -g $SAN -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -DDEC_NEEDS_CSNRN -I"$R" "$D/simd.c" "$R/simulators/sim_bg.c" "$R/common/spf_par.c" -o "$T/simd" -lm -Wl,--wrap=time,--wrap=clock,--wrap=malloc,--wrap=free $LINK || exit 2
cd "$T"
bad() { echo "$*"; exit 1; }
