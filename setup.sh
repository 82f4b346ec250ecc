#!/bin/bash
# builds all harnesses
. "$(dirname "$0")/env.sh"
for h in lab sparse ode nonlin pde stat tensor tensor_heap tool; do
  [ -f "$VERIF_ROOT/h/$h/Cargo.toml" ] || continue
  build $h || exit 1
done
