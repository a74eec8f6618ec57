#!/bin/bash
# rustc wrapper: instruments the repository's own crates for the simulator (basic-block callbacks)
# and links the server with libsim. Third-party crates are compiled as they are.
rustc="$1"; shift
case " $* " in
  *" --crate-name juno_axum "*|*" --crate-name probe "*)
    extra="-Clink-arg=-L$SIM_LIB -Clink-arg=-Wl,--no-as-needed -Clink-arg=-lsim -Clink-arg=-Wl,-rpath,$SIM_LIB";;
esac
case " $* " in
  *" --crate-name juno "*|*" --crate-name juno_axum "*|*" --crate-name probe "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard $extra;;
esac
exec "$rustc" "$@"
