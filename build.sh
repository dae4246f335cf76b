# build_mc HERE WORK PROPERTY: instruments /repo's current tree and builds the
# checker (and its race-detector build for the properties that need it).
race_props=" C11 C16 C20 "
build_mc() {
  local here=$1 work=$2 id=$3 pkgs p
  cd "$here/harness" || return 1
  go build -o "$work/instr" ./cmd/instr || return 1
  pkgs=$(cd /repo && go list ./... | paste -sd,) || return 1
  mkdir -p "$work/o"
  "$work/instr" -out "$work/o" -full "$pkgs" -quiet github.com/boltdb/bolt \
    -clock github.com/google/uuid -plain github.com/go-redis/redis/v8,github.com/go-redis/redis/v8/internal/pool -repl repl.json || return 1
  go build -mod=mod -modfile="$work/o/go.mod" -overlay="$work/o/overlay.json" -o "$work/mc" ./cmd/mc || return 1
  case "$race_props" in *" $id "*)
    # the harness is left out of the race detector's sight, and none of it is inlined into what it watches
    local f=()
    for p in vs vsync vsyncq vtime vfs cmd/mc fakeredis; do f+=("-gcflags=mcverif/$p=-race=false -l"); done
    go build -race -gcflags=all=-d=checkptr=0 "${f[@]}" \
      -mod=mod -modfile="$work/o/go.mod" -overlay="$work/o/overlay.json" -o "$work/mcr" ./cmd/mc || return 1;;
  esac
  if [ "$id" = C16 ]; then
    # uninstrumented programs that link nothing but the package under test
    for p in alone-cryptoer alone-root; do
      go build -o "$work/$p" ./cmd/$p || return 1
    done
  fi
  cd "$here"
}
