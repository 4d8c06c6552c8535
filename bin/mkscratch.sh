#!/bin/bash
# usage: mkscratch.sh DIR : copy the package of /repo's working tree to DIR and build its Fortran module there
set -e
D="$1"
mkdir -p "$D"
cp -r /repo/VolterraBasis "$D/VolterraBasis"
rm -f "$D"/VolterraBasis/fkernel*.so
rm -rf "$D"/VolterraBasis/__pycache__ "$D"/VolterraBasis/basis/__pycache__
mkdir -p "$D/fbuild"
cp "$D/VolterraBasis/fkernel.f90" "$D/fbuild/"
cd "$D/fbuild"
export PATH=/opt/venv/bin:$PATH
[ -n "$DV_FFLAGS" ] && export FFLAGS="$DV_FFLAGS"
/opt/venv/bin/python -m numpy.f2py -c fkernel.f90 -m fkernel -llapack --build-dir "$D/fbuild/meson" > "$D/fbuild/log" 2>&1
cp fkernel*.so "$D/VolterraBasis/"
