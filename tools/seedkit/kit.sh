# Sourced by a demonstration. Builds the library from the sources in the current
# directory together with demo.cpp into $T/demo; $T is a scratch directory.
# miniocpp is not installed, so a small in-memory stand-in (stub/) takes its place.
set -e
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
build_demo() { # [compiler flags]
    local f o pids=()
    local flags="-std=c++20 -O0 -g -w -include string -include cstring -include cmath -I$HERE -I$HERE/stub -Iinclude -Isrc/streaming -Isrc/logger $*"
    for f in src/streaming/*.cpp src/logger/*.cpp "$HERE/demo.cpp"; do
        o="$T/$(basename "$f").o"
        g++ $flags -DACQUIRE_ZARR_API_VERSION='"0.0.1"' -c "$f" -o "$o" &
        pids+=($!)
    done
    local bad=0
    for f in "${pids[@]}"; do wait "$f" || bad=1; done
    [ $bad = 0 ] || return 1
    g++ "$@" "$T"/*.o -o "$T/demo" -lblosc -lpthread
    mkdir "$T/work"
}
run_demo() { # runs it in its scratch directory, with a time limit
    (cd "$T/work" && timeout -k 5 "${LIMIT:-100}" "$T/demo" "$@")
}
