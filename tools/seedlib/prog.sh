# sourced by demo.sh: builds the dtrm0 simulator program with a controlled clock and works in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -r "$T"' EXIT
gcc -w -O1 -g -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -I"$R" "$D/prog.c" "$R/simulators/main_txt.c" "$R/simulators/sim_bg.c" "$R/common/spf_par.c" "$R/common/ui_txt.c" "$R/common/srm_utils.c" "$R/dtrm/dtrm0.c" -o "$T/prog" -lm -Wl,--wrap=time,--wrap=rename || exit 2
cd "$T"
bad() { echo "$*"; exit 1; }
