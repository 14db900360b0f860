#!/bin/bash
# check.sh ID TIER: decide property ID on /repo's working tree.
# Exit 0: held; 1: violation (with a VIOLATION line); 2: the check did not work.
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
repo=${NINEP_REPO:-/repo}
seed=${VERIF_SEED:-1}
. "$here/goenv.sh"
W=$(mktemp -d /tmp/ninepverif.XXXXXX) || exit 2
chmod 755 "$W"
trap 'chmod -R u+rwx "$W" 2>/dev/null; rm -rf "$W"' EXIT
trap 'exit 2' INT TERM HUP
export GOPATH=$W/gopath
G=$W/gopath/src
mkdir -p "$G/github.com/Harvey-OS" "$G/harness" || exit 2
ln -s "$repo" "$G/github.com/Harvey-OS/ninep"
cp "$here"/harness/*.go "$G/harness/" || exit 2
race=
[ "$id" = C30 ] && race=-race
vfail=
if [ "$id" = C32 ]; then
	# The tree as it is for Windows, made to build here: X_windows.go instead of X_unix.go.
	V=$W/variant
	cp -a "$(readlink -f "$repo")" "$V" || exit 2
	(cd "$V" && find . -name '*_windows.go' | while read -r f; do
		rm -f "${f%_windows.go}_unix.go"
		sed '/^\/\/ *+build/d;/^\/\/go:build/d' "$f" >"${f%_windows.go}_variant.go" && rm -f "$f"
	done)
	ln -sfn "$V" "$G/github.com/Harvey-OS/ninep"
	if ! (cd "$G/harness" && go build -o "$W/h" .) >"$W/variant.log" 2>&1; then
		ln -sfn "$repo" "$G/github.com/Harvey-OS/ninep"
		if ! (cd "$G/github.com/Harvey-OS/ninep/filesystem" && GOOS=windows go build -o /dev/null .) >"$W/variant.log" 2>&1; then
			mkdir -p "$here/replays"
			vfail=$here/replays/C32-build.txt
			{ echo "GOOS=windows go build in filesystem/ fails:"; cat "$W/variant.log"; } >"$vfail"
			cat "$vfail" >&2
		else
			echo "check: the Windows variant builds for Windows only; the one of this system is run instead" >&2
		fi
	fi
fi
if [ "$id" = C35 ]; then
	# The same program for a system of 32 bits, which this one runs as well.
	if (cd "$G/harness" && GOARCH=386 CGO_ENABLED=0 go build -o "$W/h" .) >"$W/word.log" 2>&1; then
		"$W/h" -help >/dev/null 2>&1
		case $? in
		126|127) echo "check: programs for 386 do not run here; the one of this system is run instead" >&2 ;;
		*) export GOARCH=386 CGO_ENABLED=0 ;;
		esac
	elif ! (cd "$G/github.com/Harvey-OS/ninep/cmd/ufs/" && GOARCH=386 CGO_ENABLED=0 go build -o /dev/null .) >"$W/word.log" 2>&1; then
		mkdir -p "$here/replays"
		vfail=$here/replays/C35-build.txt
		{ echo "GOARCH=386 go build in cmd/ufs/ fails:"; cat "$W/word.log"; } >"$vfail"
		cat "$vfail" >&2
	else
		echo "check: the harness does not build for 386; it is run for this system instead" >&2
	fi
fi
(cd "$G/harness" && go build $race -o "$W/h" .) || { echo "check: the harness does not build against the tree" >&2; exit 2; }
extra=()
[ -n "$vfail" ] && extra=(-genfail "$vfail")
case $id in
C24)
	(cd "$G/github.com/Harvey-OS/ninep/cmd/ufs/" && go build -o "$W/ufs" .) || { echo "check: cmd/ufs does not build" >&2; exit 2; }
	extra=(-ufsbin "$W/ufs")
	if (cd "$G/github.com/Harvey-OS/ninep/cmd/ufs/" && go build -tags pprof -o "$W/ufs2" .) >"$W/pprof.log" 2>&1; then
		extra+=(-altbin "$W/ufs2")
	else
		mkdir -p "$here/replays"
		{ echo "go build -tags pprof in cmd/ufs/ fails:"; cat "$W/pprof.log"; } >"$here/replays/C24-build.txt"
		cat "$here/replays/C24-build.txt" >&2
		extra+=(-genfail "$here/replays/C24-build.txt")
	fi ;;
C36)
	export GOCACHE=$W/gocache
	go build bytes encoding/binary errors flag fmt io io/ioutil log math/rand net os reflect strings sync text/template time || exit 2
	extra=(-src "$(readlink -f "$repo")") ;;
C03)
	A=$W/gopath2/src
	mkdir -p "$A/github.com/Harvey-OS" "$A/harness"
	cp -a "$(readlink -f "$repo")" "$A/github.com/Harvey-OS/ninep" || exit 2
	cp "$here"/harness/*.go "$A/harness/"
	if ! (cd "$A/github.com/Harvey-OS/ninep/protocol" && GOPATH=$W/gopath2 go run gen.go && cd "$A/harness" && GOPATH=$W/gopath2 go build -o "$W/h2" .) >"$W/gen.log" 2>&1; then
		mkdir -p "$here/replays"
		{ echo "go run gen.go in protocol/ (and building with the result) fails:"; cat "$W/gen.log"; } >"$here/replays/C03-generate.txt"
		cat "$here/replays/C03-generate.txt" >&2
		extra=(-genfail "$here/replays/C03-generate.txt")
	else
		extra=(-altbin "$W/h2")
	fi ;;
esac
mkdir "$W/base" && chmod 755 "$W/base"
"$W/h" -mode run -prop "$id" -tier "$tier" -seed "$seed" -base "$W/base" -out "$here/evidence/$id.json" -replays "$here/replays" "${extra[@]}"
rc=$?
case $rc in 0|1) exit $rc ;; esac
exit 2
