set -e
R=${1:-/repo}; O=${2:-/tmp/facts}; T=${3:-/tmp/nt}
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib CARGO_INCREMENTAL=0
export RUSTC_WORKSPACE_WRAPPER=/verif/.cache/driver/release/mirdump MIRDUMP_OUT=$O
mkdir -p $O; rm -f $O/*.json
find $T -depth \( -name 'nlsn-delaunay*' -o -name 'nlsn_delaunay*' \) -exec rm -rf {} + 2>/dev/null || true
cargo +nightly check --offline --manifest-path $R/Cargo.toml --target-dir $T 2>&1 | grep -E "^error|Finished"
ls $O
