#!/bin/sh
# RUSTC_WRAPPER: adds scheduler yield points (sanitizer-coverage callbacks at
# every basic-block edge, load and store) to the code under test and to the
# crate that instantiates its generics. Everything else is compiled as is.
rustc="$1"; shift
fixed=
[ "$CARGO_PKG_NAME" = sdsim ] && fixed="-C relocation-model=static"   # fixed addresses of statics
case "$CARGO_PKG_NAME-$CARGO_PKG_VERSION" in
  dd-sds-*|dd_sds_go-*|sds-bindings-utils-*|sdsim-*|regex-automata-0.4.9)
    case " $* " in
      *" --crate-name build_script_build "*) exec "$rustc" "$@";;
      *) exec "$rustc" "$@" $fixed -C passes=sancov-module \
          -C llvm-args=-sanitizer-coverage-level=3 \
          -C llvm-args=-sanitizer-coverage-trace-pc-guard \
          -C llvm-args=-sanitizer-coverage-trace-loads \
          -C llvm-args=-sanitizer-coverage-trace-stores;;
    esac;;
esac
exec "$rustc" "$@"
