#!/bin/bash
# Runs the check of one property: run.sh ID quick|thorough
# Builds the harness against the working tree of /repo first.
# exit 0: held, 1: violation, anything else: the check itself failed
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
[ -n "$id" ] || { echo "usage: run.sh ID quick|thorough"; exit 2; }

bash "$here/build.sh" || { echo "ERROR property=$id harness does not build"; exit 2; }

if [ "$id" = C38 ]; then
    # the generator of the character tables is a program of its own
    for edition in 2015 2018 2021; do
        log=$(rustc -O --edition $edition --cap-lints allow -o "$here/harness/target/generator" /repo/tools/iso8859-parser.rs 2>&1) && break
        [ $edition = 2021 ] && { printf '%s\n' "$log" | tail -20; echo "ERROR property=$id the generator does not build"; exit 2; }
    done
fi

export VERIF_TIER="$tier" VERIF_ROOT="$here"
"$here/harness/target/release/harness" run "$id"
rc=$?
# a killed harness is an error of the check
case $rc in 0|1) exit $rc;; *) echo "ERROR property=$id harness exit $rc"; exit 3;; esac
