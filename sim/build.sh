#!/bin/bash
# usage: build.sh <repo> <outdir>   builds <outdir>/simmodem from the sources of <repo>
set -u
REPO=$1; OUT=$2
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/obj"
CF="-fno-pie -std=gnu11 -g -O1 -w -fno-omit-frame-pointer -fsanitize=address -iquote $REPO/src -I$REPO/src -iquote $HERE -D_GNU_SOURCE"
# the repository is compiled as c99 with gnu extensions available through headers
RCF="-fno-pie -std=gnu99 -g -O1 -w -fno-omit-frame-pointer -fsanitize=address -I$REPO/src"
COV="-fsanitize-coverage=trace-pc-guard"
WRAP=""
for f in pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy \
  pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_cond_init pthread_cond_destroy usleep sleep nanosleep sched_yield \
  socket setsockopt getsockopt getsockname bind listen accept accept4 connect recv send read write recvfrom sendto readv writev recvmsg sendmsg shutdown close fcntl poll \
  fopen fclose fwrite fread malloc calloc realloc free volk_malloc volk_free strdup \
  protobuf_c_message_unpack protobuf_c_message_free_unpacked config_init config_destroy time gettimeofday clock_gettime iio_lib_create iio_lib_destroy exit; do WRAP="$WRAP -Wl,--wrap=$f"; done
SRCS=$(cd "$REPO/src" && find . -name '*.c' | sort)
compile() {
  s=$1; o="$OUT/obj/$(echo "$s" | sed 's#^\./##; s#[/.]#_#g').o"
  extra=""
  case "$s" in
    ./dsp/*|./math/*|./sgpsdp/*|./api.pb-c.c) ;;
    *) extra="$COV" ;;
  esac
  [ "$s" = ./main.c ] && extra="$extra -Dmain=sdr_modem_main"
  clang $RCF $extra -c "$REPO/src/$s" -o "$o" || exit 1
}
pids=()
for s in $SRCS; do compile "$s" & pids+=($!); done
for s in $(cd "$HERE" && ls *.c | sed "s/\.c$//"); do clang $CF -c "$HERE/$s.c" -o "$OUT/obj/zz_$s.o" & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
[ $rc = 0 ] || exit 1
clang -no-pie -fsanitize=address -g "$OUT"/obj/*.o -o "$OUT/simmodem.tmp" $WRAP -lvolk -lconfig -lprotobuf-c -lpthread -lm -ldl || exit 1
mv "$OUT/simmodem.tmp" "$OUT/simmodem"
rm -rf "$OUT/obj"
