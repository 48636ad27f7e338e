#!/bin/bash
# build.sh OUTDIR : compiles the library sources of /repo's working tree (default
# configuration: expat, OpenSSL, zlib, libresolv) with ASan+UBSan against the harness.
set -e
OUT=$1; HERE=$(cd "$(dirname "$0")" && pwd); REPO=${VERIF_REPO:-/repo}
mkdir -p "$OUT"
if [ -z "$OPT" ]; then OPT="-g1 -O1 -fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer"; fi
SAN=${SAN-"-fsanitize=address,undefined"}
DEFS="-DPACKAGE_NAME=\"libstrophe\" -DPACKAGE_VERSION=\"x\" -DHAVE_STDIO_H=1 -DHAVE_STDLIB_H=1 -DHAVE_STRING_H=1 -DHAVE_INTTYPES_H=1 -DHAVE_STDINT_H=1 -DHAVE_STRINGS_H=1 -DHAVE_SYS_STAT_H=1 -DHAVE_SYS_TYPES_H=1 -DHAVE_UNISTD_H=1 -DSTDC_HEADERS=1 -DHAVE_DLFCN_H=1 -DHAVE_CLOCK_GETTIME=1 -DHAVE_SNPRINTF=1 -DHAVE_VSNPRINTF=1 -DHAVE_VA_COPY=1 -DHAVE_GETRANDOM=1 -DHAVE_ZLIB=1 -DLIBXMPP_VERSION_MAJOR=0 -DLIBXMPP_VERSION_MINOR=14"
FN="socket connect send sendto sendmsg recv recvfrom select poll close shutdown fcntl ioctl setsockopt getsockopt getpeername getaddrinfo freeaddrinfo res_query gettimeofday clock_gettime time usleep nanosleep SSL_set_fd SSL_read malloc calloc realloc free strdup strndup XML_ParserCreate XML_ParserCreateNS XML_ParserCreate_MM deflateInit_ deflateInit2_ inflateInit_ inflateInit2_ read write"
rm -f "$OUT"/*.o "$OUT"/redef
for f in $FN; do echo "$f vv_$f"; done > "$OUT/redef"
for f in __res_query __res_nquery; do echo "$f vv_$f"; done >> "$OUT/redef"
SRCS=""
for s in "$REPO"/src/*.c; do
  case $(basename "$s") in
    tls_schannel.c|tls_gnutls.c|tls_dummy.c|parser_libxml2.c|compression_dummy.c|snprintf.c) ;;
    *) SRCS="$SRCS $s";;
  esac
done
printf '%s\n' $SRCS | xargs -P 8 -I{} sh -c 'gcc -c '"$OPT"' '"$(printf '%s' "$DEFS" | sed 's/"/\\"/g')"' -w -I'"$REPO"' -I'"$REPO"'/src {} -o '"$OUT"'/lib_$(basename {}).o'
for o in "$OUT"/lib_*.o; do objcopy --redefine-syms="$OUT/redef" "$o"; done
for s in vh vnet; do gcc -c $OPT -w -I"$HERE" -I"$REPO" -I"$REPO/src" "$HERE/$s.c" -o "$OUT/$s.o" & done; wait
gcc $SAN "$OUT"/*.o -o "$OUT/vh" -lexpat -lssl -lcrypto -lz -lresolv
