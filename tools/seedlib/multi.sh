# sourced by demo.sh: builds multi.c for codec $1 in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
case $1 in
 dtrm0) S="dtrm/dtrm0.c" ;;
 dtrm1) S="dtrm/dtrm1.c rm1_ml/rm1_ml.c" ;;
 glp) S="dtrm_glp/dtrm_glp_main.c dtrm_glp/dtrm_glp_inner.c"; F=-DDEC_NEEDS_CSNRN ;;
 polar) S="polar_scl/ca_polar_scl_main.c polar_scl/polar_scl_inner.c common/crc.c" ;;
esac
gcc -w -O1 -g $SAN -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA $F $FMT -I. "$D/multi.c" $S common/srm_utils.c common/spf_par.c common/ui_txt.c -o "$T/multi" -lm || exit 2
mk() { # expected checksum, arguments of multi
  e="$1"; shift; g=$("$T/multi" "$@" | tail -1)
  [ "$g" = "$e" ] && return 0
  echo "$*: checksum '$g', expected '$e'"; exit 1
}
