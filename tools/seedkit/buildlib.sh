# . buildlib.sh: compiles the library sources of the current directory with a stand-in for the absent libcerror
# usage: buildlib OUTDIR OUTPUT [flags...]
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
genheaders() {
	mkdir -p "$W/inc/libhmac" "$W/inc/common"
	for f in definitions features types; do
		sed -e 's/@HAVE_[A-Z0-9_]*@/1/g' -e 's/@VERSION@/20240417/g' -e 's/@PACKAGE@/libhmac/g' -e 's/@[A-Z_0-9]*@/0/g' include/libhmac/$f.h.in > "$W/inc/libhmac/$f.h"
	done
	sed -e 's/@PACKAGE@/libhmac/g' -e 's/@[A-Z_0-9]*@/0/g' include/libhmac.h.in > "$W/inc/libhmac.h"
	sed -e 's/@PACKAGE@/libhmac/g' -e 's/@[A-Z_0-9]*@/0/g' common/types.h.in > "$W/inc/common/types.h"
	sed -e 's/@VERSION@/20240417/g' -e 's/@PACKAGE@/libhmac/g' -e 's/@[A-Z_0-9]*@/0/g' libhmac/libhmac_definitions.h.in > "$W/inc/libhmac_definitions.h"
	{
		for d in CLOSE ERRNO_H FCLOSE FCNTL_H FREE GETOPT INTTYPES_H LIMITS_H MALLOC MEMCHR MEMCMP MEMCPY MEMRCHR MEMSET OPEN READ REALLOC SETVBUF SNPRINTF SSCANF STDARG_H STDINT_H STDIO_H STDLIB_H STRCASECMP STRCHR STRINGS_H STRING_H STRLEN STRNCASECMP STRNCMP STRNCPY STRRCHR STRSTR SYS_STAT_H SYS_TYPES_H UNISTD_H VFPRINTF VSNPRINTF WCHAR_H IO_FUNCTIONS SIGNAL_H SYS_SIGNAL_H LOCALE_H SETLOCALE LANGINFO_H; do
			echo "#define HAVE_$d 1"
		done
		echo '#define PACKAGE "libhmac"'
		echo '#define PACKAGE_BUGREPORT "none"'
		echo '#define VERSION "20240417"'
		echo '#define SIZEOF_INT 4'
		echo '#define SIZEOF_LONG 8'
		echo '#define SIZEOF_SIZE_T 8'
		echo '#define SIZEOF_OFF_T 8'
		echo '#define SIZEOF_WCHAR_T 4'
		echo '#define LOCALEDIR "/usr/share/locale"'
	} > "$W/inc/common/config.h"
	INC="-DHAVE_CONFIG_H=1 -I$W/inc -I$W/inc/common -I$HERE -Iinclude -Icommon -Ilibhmac"
}
# build the shared library; arguments are additional compiler flags
buildso() {
	genheaders
	gcc -std=gnu11 -O2 -w -fPIC -shared $INC "$@" -o "$W/libhmac.so" libhmac/*.c "$HERE/stubs.c" $LIBS || exit 2
}
# build and run a C program against the library: buildrun prog.c [flags...]
buildc() {
	genheaders
	p=$1; shift
	gcc -std=gnu11 -g -w $INC "$@" -o "$W/demo" "$HERE/$p" libhmac/*.c "$HERE/stubs.c" $LIBS || exit 2
}
# build the Python module as $W/pyhmac.so
buildpy() {
	genheaders
	P=$(ls -d /usr/include/python3.* | head -1)
	gcc -std=gnu11 -O1 -w -fPIC -shared $INC -Ipyhmac -I"$P" "$@" -o "$W/pyhmac.so" pyhmac/*.c libhmac/*.c "$HERE/stubs.c" $LIBS || exit 2
}
# build the sum tool as $W/hmacsum, or a program against its parts with buildtools prog.c
buildsum() {
	genheaders
	gcc -std=gnu11 -g -w $INC -Ihmactools "$@" -o "$W/hmacsum" hmactools/*.c libhmac/*.c "$HERE/stubs.c" "$HERE/toolstubs.c" $LIBS || exit 2
}
buildtools() {
	genheaders
	p=$1; shift
	gcc -std=gnu11 -g -w $INC -Ihmactools "$@" -o "$W/demo" "$HERE/$p" $(ls hmactools/*.c | grep -v hmacsum.c) libhmac/*.c "$HERE/stubs.c" "$HERE/toolstubs.c" $LIBS || exit 2
}
