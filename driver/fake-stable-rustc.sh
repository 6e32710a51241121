#!/bin/sh
# The nightly compiler, presenting itself as stable: two dependencies (proc-macro2 1.0.47, ahash
# 0.7.6) probe for nightly features that have changed since, and fail to build when they see one.
# Only used to type-check /repo for analysis.
RUSTC_BOOTSTRAP=-1
export RUSTC_BOOTSTRAP
for a in "$@"; do
  case "$a" in
    -vV|--version|-V) "$BCALC_NIGHTLY_RUSTC" "$@" | sed 's/-nightly//'; exit $? ;;
  esac
done
exec "$BCALC_NIGHTLY_RUSTC" "$@"
