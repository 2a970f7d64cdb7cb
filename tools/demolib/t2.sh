. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog $HERE/t.c && gdb -batch -ex run -ex bt $W/prog 2>&1 | tail -12
