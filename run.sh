#!/bin/bash
# bash run.sh build            build the machinery against /repo's working tree
# bash run.sh <ID> <tier>      decide one property (tier: quick or thorough)
# bash run.sh replay <file>    run a recorded counterexample again
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the machinery failed.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
VERIF=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$VERIF/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p work target replays evidence

build() { # $1: harness crate directory
  local crate=$1 stamp now
  exec 9> work/build.lock
  flock 9
  stamp=work/$crate.stamp
  # Cargo trusts modification times; the tree may have been replaced by one with older times, so
  # compare contents.
  now=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \
           \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.grammar' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
          cd "$VERIF" && find mc wopmc xmc -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ] || [ ! -x "target/release/$crate" ]; then
    local pk
    for pk in lrp wop "$crate"; do
      (cd "$crate" && cargo clean --release --offline -p "$pk" > /dev/null 2>&1)
    done
    rm -f "$VERIF/$stamp"
    # what the checks compile themselves depends on the tree too
    if [ "$crate" = wopmc ] && [ -d "$VERIF/target/gen" ]; then
      find "$VERIF/target/gen" -mindepth 1 -delete
    fi
    if [ "$crate" = xmc ] && [ -d "$VERIF/target/genx" ]; then
      find "$VERIF/target/genx" -mindepth 1 -delete
    fi
    (cd "$crate" && cargo build --release --offline > "$VERIF/work/$crate.build.log" 2>&1) || {
      echo "the build of $crate against /repo failed:" >&2
      grep -E '^error' -A8 "work/$crate.build.log" | head -60 >&2
      exit 2
    }
    echo "$now" > "$stamp"
  fi
  flock -u 9
  exec 9>&-
}

crate_of() {
  case $1 in
    C0?|C1[0-4]) echo mc ;;
    C1[5-9]|C2[017]) echo wopmc ;;
    C2[346]) echo mc ;;
    C22|C25) echo xmc ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
  esac
}

# The builder writes warnings to the error stream for every literal without an alias: keep the end
# of it, and show it when the machinery fails.
run() {
  "target/release/$c" "$@" 2> >(tail -c 20000 > "work/$c.$id.err")
  local rc=$?
  wait
  [ $rc -gt 1 ] && tail -n 40 "work/$c.$id.err" >&2
  exit $rc
}

case $1 in
  build) build mc; build wopmc; build xmc ;;
  replay)
    id=$(sed -n 's/^property: //p' "$2")
    c=$(crate_of "$id") || exit 2
    build "$c"
    run replay "$2" "$VERIF" ;;
  *)
    id=$1
    c=$(crate_of "$id") || exit 2
    build "$c"
    tier=${2:-${VERIF_TIER:-quick}}
    export VERIF_TIER=$tier
    rm -f "evidence/$id.json"
    run check "$id" "$tier" "$VERIF" ;;
esac
