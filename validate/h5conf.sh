#!/bin/bash
# Development-time conformance of the substitute HDF5: the same calls against
# real HDF5 (one rank) and against mc/include_h5 must print the same results.
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d); cd "$D" || exit 1
L=/usr/lib/x86_64-linux-gnu/hdf5/openmpi
mpicxx -DREAL -w -I/usr/include/hdf5/openmpi "$V/validate/h5conf.cpp" -L$L -lhdf5 -Wl,-rpath,$L -o real || exit 1
OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 ./real "$D/f.h5" > real.txt
(echo "// MC-VARIANT: h"; cat "$V/validate/h5conf.cpp") > "$V/harness/h5conf.cpp"
python3 "$V/build.py" h5conf > build.log; rm "$V/harness/h5conf.cpp"
H5CONF_OUT=$D/mock.txt "$V/build/h5conf" --time 5 --out o.json > log 2>&1
wc -l real.txt mock.txt; diff real.txt mock.txt && echo SAME
rm -r "$D"
