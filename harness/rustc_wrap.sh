#!/bin/bash
# RUSTC_WRAPPER: adds SanitizerCoverage edge callbacks to the crates under test only.
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      lite_account*|lite_token*|lite_accounts*)
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard;;
    esac
    break
  fi
  prev="$a"
done
exec "$rustc" "$@"
