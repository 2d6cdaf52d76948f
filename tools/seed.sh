#!/bin/bash
# seed.sh ID: confirms a planted bug (stable tests pass with it, the demonstration
# passes without and fails with it) in a scratch copy, then runs all checks on it.
id=$1; s=/verif/seeded/$id
d=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"; cd "$d/repo"
cp -a "$s" "$d/s"
bash "$d/s/demo.sh" > "$d/o1" 2>&1; a=$?
git apply "$s/patch.diff" || exit 2
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= CARGO_TARGET_DIR=$d/repo/target
rm -rf target/debug/.fingerprint/qesa-*
ok=0; for i in 1 2 3; do cargo test --workspace --no-fail-fast --offline -- --skip copy::mapping:: > "$d/t" 2>&1 || { ok=1; grep -E "FAILED|error|panicked" "$d/t" | head; }; done
bash "$d/s/demo.sh" > "$d/o2" 2>&1; b=$?
echo "$id: demo clean=$a tests=$ok demo patched=$b"
[ $a = 0 ] || tail -20 "$d/o1"
[ -n "$2" ] && tail -30 "$d/o2"
cd /verif
for c in ${CHECKS:-$(python3 -c "import json;print(*[x['property'] for x in json.load(open('/verif/MANIFEST.json'))['checks']])")}; do
  QSA_REPO=$d/repo ./check $c > "$d/c" 2>&1; r=$?
  [ $r = 0 ] || { echo "  $c -> $r"; head -3 "$d/c" | cut -c1-300 | sed 's/^/      /'; }
done
