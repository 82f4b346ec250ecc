#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]
. "$(dirname "$0")/env.sh"
id=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
case $id in
  L*) h=lab ;;
  S*) h=sparse ;;
  O*) h=ode ;;
  N*) h=nonlin ;;
  P*) h=pde ;;
  R*) h=stat ;;
  T*) h=tensor ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
build $h || { echo "the harness does not build against /repo" >&2; exit 2; }
if [ $id = S07 ]; then
  build tool || { echo "the command does not build" >&2; exit 2; }
  export VERIF_TOOL=$CARGO_TARGET_DIR/debug/solve_matrix_market
fi
VERIF_SCRATCH=$VERIF_ROOT/scratch/$id-$$
export VERIF_SCRATCH
mkdir -p "$VERIF_SCRATCH"
first=0
if [ $h = tensor ]; then
  # the tensor crate has a second build with other storage
  build tensor_heap || { echo "the harness does not build against /repo" >&2; exit 2; }
  VERIF_NO_EVIDENCE=1 VERIF_PART_OUT="$VERIF_SCRATCH/part.json" "$CARGO_TARGET_DIR/debug/h_tensor_heap" "$id" "$tier"
  first=$?
  export VERIF_PART_IN="$VERIF_SCRATCH/part.json"
fi
"$CARGO_TARGET_DIR/debug/h_$h" "$id" "$tier"
code=$?
[ $code = 0 ] && code=$first
case $VERIF_SCRATCH in
  "$VERIF_ROOT"/scratch/?*) rm -rf "$VERIF_SCRATCH" ;;
esac
exit $code
