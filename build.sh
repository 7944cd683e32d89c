#!/bin/bash
# Builds the simulator and the library copies into $1 from /repo's working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
out=$1
mkdir -p "$out"
cd "$out"
WR="malloc calloc free realloc posix_memalign aligned_alloc strdup strndup exit _exit abort __assert_fail __stack_chk_fail getenv getpid getppid gethostname gettimeofday time clock clock_gettime usleep sleep nanosleep vfprintf fprintf printf fwrite fputs puts dlopen dlsym dlclose dlerror putchar fputc putc fflush fopen freopen fclose system"
WR="$WR $(grep -oh '__wrap_[a-z_0-9A-Z]*(' $here/sim/net.cpp $here/sim/mpi.cpp $here/sim/core.cpp $(ls $here/sim/glib.cpp 2>/dev/null) | sed 's/__wrap_//; s/(//' | sort -u | tr '\n' ' ')"
WL=""
for s in $(echo $WR | tr ' ' '\n' | sort -u); do WL="$WL -Wl,--wrap=$s"; done
mkdir -p gen obj
echo '#define GIT_VERSION "sim"' > gen/git-version.h.tmp
cmp -s gen/git-version.h.tmp gen/git-version.h || mv gen/git-version.h.tmp gen/git-version.h
CF="-O1 -g -std=gnu99 -fPIC -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=2 -fstack-protector-all -I$here/stub -I$repo/include -I$repo/src -Igen"
pids=""
run() { "$@" & pids="$pids $!"; }
for f in $repo/src/*.c; do
    b=$(basename $f .c)
    run gcc $CF -DUSE_MPI -DUSE_TCP -DUSE_TCP2 -c $f -o obj/n_$b.o
done
TF="-I/usr/include/glib-2.0 -I/usr/lib/x86_64-linux-gnu/glib-2.0/include"
for f in $repo/src/backends/tcp/*.c; do
    b=$(basename $f .c)
    run gcc $CF -std=gnu11 $TF -DUSE_TCP -c $f -o obj/n_tcp_$b.o
done
for f in $here/sim/*.cpp; do
    b=$(basename $f .cpp)
    newest=$(ls -t $here/sim/*.cpp $here/sim/*.h $here/sim/*.inc $here/stub/mpi.h $repo/include/*.h $repo/include/laik/*.h build.stamp 2>/dev/null | head -1)
    if [ ! -e obj/s_$b.o ] || [ -n "$(find $f $here/sim/*.h $here/sim/*.inc $here/stub $repo/include -newer obj/s_$b.o -name '*.[chi]*' 2>/dev/null | head -1)" ]; then
        run g++ -std=c++17 -O1 -g -w -I$here/stub -I$repo/include -c $f -o obj/s_$b.o
    fi
done
run gcc $CF -U_FORTIFY_SOURCE -c $here/stub/nodeio.c -o obj/io.o
run gcc $CF -c $here/stub/nodeapi.c -o obj/napi.o
run gcc $CF -Dagent_init=simnode_simpleagent -c $repo/external/simple/simple-agent.c -o obj/n_ext_simple.o
for p in $pids; do wait $p; done
RS="--redefine-sym stdout=simnode_stdout --redefine-sym stderr=simnode_stderr"
for s in vfprintf fprintf vprintf printf read recv poll gethostname; do RS="$RS --redefine-sym __${s}_chk=simnode_${s}_chk"; done
for f in obj/n_*.o; do objcopy $RS $f; done
gcc -shared -o node.so obj/n_*.o obj/io.o obj/napi.o $WL
g++ -rdynamic -o sim obj/s_*.o -ldl
for i in $(seq 0 11); do cp node.so node$i.so; done
