#!/bin/bash
# Builds the simulators from /repo's working tree into /verif/.build.
# usage: build.sh [lib] [race] [cli]
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
mkdir -p "$B"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
( : > "$GOCACHE/.w" ) 2>/dev/null || { export GOCACHE=$B/gocache; mkdir -p "$GOCACHE"; }
rm -f "$GOCACHE/.w"
export GOTMPDIR=$B/tmp
mkdir -p "$GOTMPDIR"

(
flock 9
# x/crypto with a switchable cheap scrypt
xv=$(cd "$R" && awk '$1=="golang.org/x/crypto"{print $2; exit}' go.mod)
X=$B/xcrypto
xs="$xv all $(sha256sum < "$V/sim/overlay/scrypt.go.txt")"
if [ "$(cat "$X/.done" 2>/dev/null)" != "$xs" ]; then
	rm -rf "$B/xcrypto"
	mkdir -p "$X"
	src=$GOMODCACHE/golang.org/x/crypto@$xv
	cp -r "$src/." "$X/"
	chmod -R u+w "$X"
	find "$X" -name '*_test.go' -delete
	cp "$V/sim/overlay/scrypt.go.txt" "$X/scrypt/scrypt.go"
	echo "$xs" > "$X/.done"
fi

# bcrypt_pbkdf with a switchable cheap hash
bv=$(cd "$R" && awk '$1=="github.com/dchest/bcrypt_pbkdf"{print $2; exit}' go.mod)
Y=$B/xbcrypt
ys="$bv $(cat "$V/sim/overlay/bcrypt.go.txt" "$V/tools/build.sh" | sha256sum)"
if [ -n "$bv" ] && [ "$(cat "$Y/.done" 2>/dev/null)" != "$ys" ]; then
	rm -rf "$B/xbcrypt"
	mkdir -p "$Y"
	sed -e 's/^func bcryptHash(.*{$/&\n\tif SimCheap {\n\t\tsimHash(out, shapass, shasalt)\n\t\treturn\n\t}/' "$GOMODCACHE/github.com/dchest/bcrypt_pbkdf@$bv/bcrypt_pbkdf.go" > "$Y/bcrypt_pbkdf.go"
	cp "$V/sim/overlay/bcrypt.go.txt" "$Y/sim.go"
	printf 'module github.com/dchest/bcrypt_pbkdf\n\nrequire golang.org/x/crypto v0.0.0\n' > "$Y/go.mod"
	echo "$ys" > "$Y/.done"
fi

# go.mod of the simulator: what the repository requires, with the repository
# and x/crypto replaced by local directories
mk() {
	sed -e "s|^module .*|module $1|" -e '/^replace/d' "$R/go.mod"
	echo "replace golang.org/x/crypto => $X"
	[ -z "$bv" ] || echo "replace github.com/dchest/bcrypt_pbkdf => $Y"
}
{ mk verifsim; echo "require github.com/opencoff/sigtool v0.0.0"; echo "replace github.com/opencoff/sigtool => $R"; } > "$B/sim.mod"
cp "$R/go.sum" "$B/sim.sum"
{ mk github.com/opencoff/sigtool; } > "$B/cli.mod"
cp "$R/go.sum" "$B/cli.sum"

# with the hook of /repo, or without it if it can't be built any more
sim() {
	(cd "$V/sim" && go build -tags verif -modfile="$B/sim.mod" "$@" ./cmd/simcheck) 2>"$B/hook.err" ||
	(cd "$V/sim" && go build -modfile="$B/sim.mod" "$@" ./cmd/simcheck)
}

for t in "$@"; do
	case $t in
	lib)  sim -o "$B/simcheck" ;;
	race) sim -race -o "$B/simcheck-race" ;;
	cli)  "$V/tools/overlay.sh" "$B"
	      (cd "$R" && CGO_ENABLED=0 go build -modfile="$B/cli.mod" -overlay "$B/overlay.json" -buildvcs=false -o "$B/sigtool-sim" ./src)
	      # the same machine under a program that uses package sign
	      sed "s|\"Replace\": {|&\n  \"$R/zz_verif_store/main.go\": \"$V/sim/overlay/store.go.txt\",|" "$B/overlay.json" > "$B/overlay-store.json"
	      (cd "$R" && CGO_ENABLED=0 go build -modfile="$B/cli.mod" -overlay "$B/overlay-store.json" -buildvcs=false -o "$B/store-sim" ./zz_verif_store) ;;
	esac
done
) 9>"$B/.lock"
rm -rf "$B/tmp"
