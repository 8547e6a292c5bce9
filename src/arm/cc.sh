#!/bin/bash
# gcc or g++ (first argument) for ARM builds on a machine that is not ARM:
# drops the architecture flags, puts the stand-in headers in front and sets the vector length
# (VW_BITS overrides -msve-vector-bits)
cc=$1; bits=$2; shift 2
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
a=()
for x in "$@"; do
  case "$x" in
    -march=*) ;;
    -msve-vector-bits=*) [ "$bits" = 0 ] && bits=${x#*=} ;;
    *) a+=("$x") ;;
  esac
done
[ "$bits" = 0 ] && bits=128
exec "$cc" -mavx2 -mfma -Wno-psabi -isystem "$here" -D__ARM_FEATURE_SVE_BITS="$bits" "${a[@]}"
