# sourced by demo.sh: builds the C library of the current directory (an acados checkout) against the
# BLASFEO/HPIPM that the casadi wheel ships, in a scratch directory ($W), offline.
REPO="$PWD"; HERE="$(cd "$(dirname "$0")" && pwd)"
D="$(ls -d /opt/acados-env/venv/lib/python3*/site-packages/casadi | head -1)"
W="$(mktemp -d /tmp/acdemo.XXXXXX)"; trap 'rm -rf "$W"' EXIT
mkdir -p "$W/inc/blasfeo" "$W/inc/hpipm/include" "$W/obj"
ln -s "$D/include" "$W/inc/blasfeo/include"
for h in "$D"/include/hpipm_*; do ln -s "$h" "$W/inc/hpipm/include/"; done
cp "$HERE"/hpipm_d_*_seed.h "$W/inc/hpipm/include/"
CF="-w -include $HERE/hpipm_shim.h -O1 -g -fPIC -std=gnu99 ${DEMO_CFLAGS:--fopenmp -DACADOS_WITH_OPENMP} -I$W/inc -I$W/inc/hpipm/include -I$W/inc/blasfeo/include -I$REPO -I$REPO/interfaces"
build_lib() {
  ( cd "$REPO"; find acados interfaces/acados_c -name '*.c' | grep -v -e qpoases -e daqp -e osqp -e clarabel -e qpdunes -e ooqp -e qore -e hpmpc -e /test ) > "$W/files"
  while read -r f; do
    echo "gcc $CF -c $REPO/$f -o $W/obj/$(echo $f | tr / _).o"
  done < "$W/files" | xargs -P 8 -d '\n' -I{} sh -c '{}' || return 1
  gcc $CF -c "$HERE/seed_impl.c" -o "$W/obj/seed_impl.o" || return 1
  gcc -shared -fopenmp -o "$W/libacados.so" "$W"/obj/*.o -L"$D" -lhpipm -lblasfeo -lm -Wl,-rpath,"$D"
}
build_prog() { gcc $CF "$@" -o "$W/prog" -L"$W" -lacados -L"$D" -lhpipm -lblasfeo -lm -fopenmp -Wl,-rpath,"$W" -Wl,-rpath,"$D" -Wl,--unresolved-symbols=ignore-all; }
# the same library with aborting stand-ins for the functions the shipped HPIPM lacks, so that it can be opened with RTLD_NOW
build_closed_lib() {
  build_lib || return 1
  gcc -shared -fopenmp -o "$W/x.so" "$W"/obj/*.o -L"$D" -lhpipm -lblasfeo -lm -Wl,--no-undefined 2>&1 | grep -o "undefined reference to .*" | sed "s/.*\`\([A-Za-z_0-9]*\).*/\1/" | sort -u > "$W/undef"
  { echo '#include <stdlib.h>'; sed 's/.*/void &(void) { abort(); }/' "$W/undef"; } > "$W/undef.c"
  gcc -fPIC -c "$W/undef.c" -o "$W/obj/undef.o" && mkdir -p "$W/lib" &&
  gcc -shared -fopenmp -o "$W/lib/libacados.so" "$W"/obj/*.o -L"$D" -lhpipm -lblasfeo -lm -Wl,-rpath,"$D"
}
