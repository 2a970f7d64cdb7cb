. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog $HERE/t.c && for i in 0 1 2 3 4; do $W/prog $i; done; gcc -shared -o $W/x.so $W/obj/*.o -L$D -lhpipm -lblasfeo -lm -fopenmp -Wl,--no-undefined 2>&1 | grep -o "undefined reference to .*" | sort | uniq -c
