# Beside every demonstration: a scratch module, the command built from the
# current directory and a listing of its findings.
export HOME="${HOME:-/root}" LANG=C.UTF-8 TZ=UTC
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off CGO_ENABLED=1 GOSECGOVERSION="${GOSECGOVERSION:-1.22}"
unset GOSEC_AI_API_KEY
HERE="$(cd "$(dirname "$0")" && pwd)"
TREE="$(pwd)"
D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
mkdir "$D/m"; printf 'module example.com/m\n\ngo 1.22\n' > "$D/m/go.mod"
build() { go build -o "$D/gosec" ./cmd/gosec || exit 3; }
# file NAME < text: a file of the scratch module
file() { mkdir -p "$(dirname "$D/m/$1")"; cat > "$D/m/$1"; }
gosec() { (cd "$D/m" && "$D/gosec" "$@" 2>"$D/log"); }
# rows [OPTIONS]: the findings of the module as "file:line rule", sorted
rows() {
  gosec -fmt=json -no-fail "$@" ./... > "$D/out.json" || { echo "gosec failed"; tail -20 "$D/log"; exit 3; }
  python3 - "$D/out.json" "$D/m/" <<'PY'
import json, sys
r = json.load(open(sys.argv[1]))
for l in sorted("%s:%04d %s" % (i["file"].replace(sys.argv[2], ""), int(i["line"].split("-")[0]), i["rule_id"]) for i in r["Issues"] or []):
    f, l = l.split(":"); n, x = l.split(" "); print("%s:%d %s" % (f, int(n), x))
PY
}
# expect WHAT ACTUAL EXPECTED
expect() {
  if [ "$2" != "$3" ]; then echo "FAIL: $1"; echo "--- expected"; echo "$3"; echo "--- got"; echo "$2"; exit 1; fi
}
# gotest PACKAGE NAME: runs TestDemo of the file NAME beside the demonstration within PACKAGE
gotest() {
  printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/%s"}}' "$TREE" "$1" "$HERE" "$2" > "$D/overlay.json"
  go test -vet=off -count=1 -overlay "$D/overlay.json" -run '^TestDemo$' "./$1" || exit 1
}
