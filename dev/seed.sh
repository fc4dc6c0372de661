#!/bin/bash
# dev/seed.sh <seed id>...: confirms a seeded change in a scratch copy and shows which checks report it
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
V=/verif
for id in "$@"; do
  W=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$W/r"; O="$W/out"; mkdir "$O"
  d=$(mktemp -d /tmp/demo.XXXXXX); cp "$V/seeded/$id/"* "$d/"; rm -f "$d"/*.diff "$d"/meta.json
  ( cd "$W/r" && bash "$d/demo.sh" >"$W/d0" 2>&1 ); a=$?
  ok=yes
  git -C "$W/r" apply "$V/seeded/$id/patch.diff" || ok=noapply
  ( cd "$W/r" && go build ./... ) >"$W/b" 2>&1 || ok=nobuild
  ( cd "$W/r" && go vet ./... >/dev/null 2>&1 )
  ( cd "$W/r" && go test -vet=off ./... 2>&1 | grep -E "^(FAIL|---|panic)" | grep -v "^FAIL$" ) >"$W/t" 2>&1
  [ -s "$W/t" ] && ok="tests: $(head -3 "$W/t" | tr '\n' ' ')"
  ( cd "$W/r" && bash "$d/demo.sh" >"$W/d1" 2>&1 ); b=$?
  "$V/bin/vx" -repo "$W/r" -out "$O" -known "$V" -property all > "$W/c" 2>&1
  c=$(grep -o "VIOLATION property=C[0-9]*" "$W/c" | sed 's/.*=//' | tr '\n' ' ')
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  case " $c" in *" $p "*) k=CAUGHT;; *) k=MISSED;; esac
  echo "$id property=$p build/tests=$ok demo: clean=$a patched=$b $k by: $c"
  if [ $a != 0 ]; then tail -15 "$W/d0"; fi
  [ "$ok" != yes ] && cat "$W/b" | head
  if [ -n "$SHOW" ]; then tail -5 "$W/d1"; grep -A12 "$SHOW" "$W/c"|cut -c1-300; fi
  rm -rf "$W" "$d"
done
