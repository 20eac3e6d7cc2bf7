#!/bin/bash
# check.sh ID [quick|thorough]   build from /repo's working tree and run the check of one property
# check.sh --replay FILE         run one recorded execution again
# check.sh --build               build all checkers (warms the caches)
here=$(cd "$(dirname "$0")" && pwd) || exit 2
. /opt/vp/env.sh
export CGO_ENABLED=${CGO_ENABLED:-1}
mkdir -p "$here/build" "$here/evidence" "$here/replay"
bin() {
  case $1 in
    C16|C23|C27) echo unitcheck ;;
    C18|C19|C20|C21|C22|C28) echo clicheck ;;
    C29) echo causecheck ;;
    *) echo parsecheck ;;
  esac
}
build() {
  local flags=() src=$1
  [ "$1" = racecheck ] && flags=(-race) src=parsecheck
  [ "$1" = causecheck ] && flags=(-tags causes) src=parsecheck
  if [ "$1" = clicheck ]; then
    (cd /repo && go build -o "$here/build/gpgpdump.$$" .) && mv -f "$here/build/gpgpdump.$$" "$here/build/gpgpdump" || return 1
  fi
  (cd "$here/mc" && go build "${flags[@]}" -o "$here/build/$1.$$" "./cmd/$src") && mv -f "$here/build/$1.$$" "$here/build/$1"
}
case $1 in
  --build)
    for b in parsecheck unitcheck clicheck racecheck causecheck; do build $b || exit 2; done
    exit 0 ;;
  --replay)
    id=$(sed -n 's/.*"property": "\([^"]*\)".*/\1/p' "$2" | head -1)
    b=$(bin "$id"); build "$b" || exit 2
    [ "$id" = C24 ] && { build racecheck || exit 2; }
    exec "$here/build/$b" -root "$here" -replay "$2" ;;
esac
b=$(bin "$1")
if [ "$1" = C24 ] && ! build racecheck; then echo "cannot build the checker against /repo"; exit 2; fi
if ! build "$b"; then echo "cannot build the checker against /repo"; exit 2; fi
exec "$here/build/$b" -root "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
