#!/bin/bash
# Builds the disk seam (an LD_PRELOAD shim) from the committed source.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/build" && gcc -O2 -fPIC -shared -Wall -o "$here/build/simfs.so.tmp" "$here/simkit/native/simfs.c" -ldl \
  && mv "$here/build/simfs.so.tmp" "$here/build/simfs.so" && echo built
