set -e
T=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
cd /verif/engine && cargo build --release --offline --target-dir /tmp/kt 2>&1 | grep -E '^(error)' -A6 || true
cd /verif/harness && rm -f /tmp/ht/release/deps/*.bc && CARGO_TARGET_DIR=/tmp/ht RUSTFLAGS="-C embed-bitcode=yes -C save-temps" cargo rustc --offline --release -- -C link-args="-Wl,--unresolved-symbols=ignore-all" 2>&1 | grep -E '^error' -A8 || true
BC=$(ls /tmp/ht/release/deps/*lto.after-restriction.bc|head -1)
L=$(cd /verif/harness; grep -oh 'extern "C" fn h_[a-z0-9_]*' src/*.rs | sed 's/.*fn //' | tr '\n' ',')
$T/opt -S -passes='internalize,globaldce,function(lower-invoke,simplifycfg),globaldce' -internalize-public-api-list=main,$L $BC -o /tmp/s1.ll
K=/tmp/kt/release/ksym
$K prep /tmp/s1.ll /tmp/s1p.ll
$T/opt -S -passes='globaldce,default<O1>,globaldce' /tmp/s1p.ll -o /tmp/s2.ll
