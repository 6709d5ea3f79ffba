#!/bin/bash
# check.sh PROPERTY: rebuild from /repo and search; tier and seed from the environment
cd "$(dirname "$0")" || exit 2
prop="$1"
case "$prop" in C27) bin=lamsnap;; *) bin=lamsim;; esac
./build.sh $bin || exit 2
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
case "$tier" in thorough) runs=100000000; secs=600;; *) runs=150000; secs=40;; esac
exec ./target/bin/$bin check "$prop" --tier "$tier" --seed "$seed" --runs "$runs" --secs "$secs" --root "$PWD"
