# developer build: mc/build_dev.sh ENGINE [outdir]   (REPO=path to build another tree)
set -e
X=${1:-map_mc}; B=${2:-/verif/build/dev}; mkdir -p $B; R=${REPO:-/repo}
for f in $R/dhara/*.c; do o=$B/$(basename $f .c).o; gcc -O2 -g -fno-pie -I$R -c $f -o $o; objcopy --set-section-flags .bss=alloc,load,data,contents --rename-section .bss=dh_data --rename-section .data=dh_data $o; done
gcc -O2 -g -fno-pie -I$R -I/verif/mc -c /verif/mc/shim.c -o $B/shim.o
g++ -std=c++17 -O2 -g -fno-pie -no-pie -Wall -Wno-misleading-indentation -Wno-unused-function -Wno-clobbered -I/verif/mc -o $B/$X /verif/mc/$X.cpp $B/error.o $B/journal.o $B/map.o $B/shim.o
