#!/bin/bash
# Builds the harness against the working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
mkdir -p target
exec 9>target/.lock
flock 9
# cargo looks at modification times only: start over when the sources differ from those built last
stamp="$(cd /repo && { find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; } | sha256sum)"
if [ ! -f target/.stamp ] || [ "$(< target/.stamp)" != "$stamp" ]; then
    rm -f "$here/harness/target/.stamp"
    cargo clean --offline --release -p mpegts -p harness >/dev/null 2>&1
    cargo clean --offline --release --target-dir target/guided -p mpegts -p harness >/dev/null 2>&1
fi

# a second time with the library instrumented, for the coverage-guided search;
# the checks do without that search where the compiler cannot instrument
cat > target/rustc-guided <<'END'
#!/bin/bash
case " $* " in
*" --crate-name mpegts "*)
    # without the address checks of debug assertions, whose operands differ from run to run
    exec "$@" -Cdebug-assertions=off -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares \
        -Cllvm-args=-simplifycfg-branch-fold-threshold=0 -Cllvm-args=-bonus-inst-threshold=0 \
        -Cllvm-args=-phi-node-folding-threshold=0 -Cllvm-args=-two-entry-phi-node-folding-threshold=0;;
esac
exec "$@"
END
chmod +x target/rustc-guided
(
    RUSTC_WRAPPER="$PWD/target/rustc-guided" cargo build --offline --release --features guided --target-dir target/guided \
        > target/guided.log 2>&1 || rm -f "$here/harness/target/guided/release/harness"
) &

log=$(cargo build --offline --release 2>&1)
rc=$?
wait
[ $rc = 0 ] || { printf '%s\n' "$log" | tail -40; exit 2; }
printf '%s\n' "$stamp" > target/.stamp
