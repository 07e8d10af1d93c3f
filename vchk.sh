#!/bin/bash
# dev helper: syntax-check a probe
F="-std=gnu++17 -DHDF_NO_NAMESPACE -DNO_STATIC_CAST -DOLD_HEADER_FILENAME -DUSE_BOOST -DUSE_PTHREADS -I/repo/src -I/repo/src/Io -I/repo/src/Ainur -I/repo/loki/.. -isystem /usr/include/hdf5/serial"
for f in "$@"; do echo "== $f"; /usr/bin/clang++-18 $F $X -fsyntax-only -ferror-limit=40 $f 2>&1 | grep -E "error|note: in instantiation|requested here" | head -${N:-40}; done
