# Sourced by check.sh and setup.sh: builds the harness with the hooks on and sets BIN.
# Should the hooks not build against the current tree, it is built without them: the checks
# that use them still work (unseeded sampling, no delays in front of locks).
# Cargo judges by the age of files, which a restored file may get wrong: what counts here is a
# digest of their contents.
export CARGO_NET_OFFLINE=true
base="$root/harness/target"
digest=$( (rustc -V; cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
  cd "$root/harness" && sha256sum Cargo.toml Cargo.lock src/*) 2>&1 | sha256sum | cut -d' ' -f1)
for kind in hook plain; do
  if [ "$(cat "$base/$kind.digest" 2>/dev/null)" = "$digest" ] && [ -x "$base/$kind/release/pokerscheck" ]; then
    BIN="$base/$kind/release/pokerscheck"
    return 0
  fi
done
rm -f "$base/hook.digest" "$base/plain.digest"
log=$(mktemp)
for kind in hook plain; do
  flags=
  [ $kind = hook ] && flags="--cfg pokers_verif"
  rm -rf "$base/$kind/release/.fingerprint/"pokers*
  if CARGO_TARGET_DIR="$base/$kind" RUSTFLAGS="$flags" cargo build --release --offline --manifest-path "$root/harness/Cargo.toml" >>"$log" 2>&1; then
    BIN="$base/$kind/release/pokerscheck"
    echo "$digest" >"$base/$kind.digest"
    rm -f "$log"
    return 0
  fi
done
grep -E '^error' -A6 "$log" | head -60 >&2
echo "the harness does not build" >&2
rm -f "$log"
return 1
