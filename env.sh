# Sourced by the scripts, from /verif.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin CC=/usr/bin/gcc CXX=/usr/bin/g++
VERIF=$PWD
BUILD=$VERIF/build
export CCACHE_DIR=$BUILD/ccache CCACHE_MAXSIZE=3G CCACHE_SLOPPINESS=include_file_mtime,include_file_ctime
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1
export UBSAN_OPTIONS=print_stacktrace=1
export TERM=dumb
unset MALIPUT_PLUGIN_PATH

configure() {
  mkdir -p "$BUILD"
  if [ ! -f "$BUILD/build.ninja" ]; then
    rm -f "$BUILD/CMakeCache.txt"
    cmake -S "$VERIF" -B "$BUILD" -G Ninja -DCMAKE_BUILD_TYPE= >"$BUILD/configure.log" 2>&1 ||
      { tail -30 "$BUILD/configure.log" >&2; return 1; }
  fi
}

build_target() {
  mkdir -p "$BUILD"
  (
    flock 9
    configure || exit 1
    ninja -C "$BUILD" "$@" >"$BUILD/build-$1.log" 2>&1 || { tail -60 "$BUILD/build-$1.log" >&2; exit 1; }
  ) 9>"$BUILD/.lock"
}
