#!/bin/bash
# build.sh: library, generated headers, C and C++ driver -> $CARGO_TARGET_DIR/chk/{c20_c,c20_cpp}
set -e
cd "$(dirname "$0")"
T=$CARGO_TARGET_DIR
# the build script has to run again: cargo does not see changes outside this folder
if [ -d "$T/chk/.fingerprint" ]; then find "$T/chk/.fingerprint" -maxdepth 1 -name 'rtbvh_ffi_c-*' -exec rm -r {} +; fi
rm -f "$T/rtbvh.h" "$T/rtbvh.hpp" "$T/chk/c20_c" "$T/chk/c20_cpp"
cargo build --offline --locked --profile chk
[ -f "$T/rtbvh.h" ] && [ -f "$T/rtbvh.hpp" ]
driver() { # compiler language output
    local log="$T/chk/$3.log"
    if "$1" -x "$2" -O1 -g -w -I "$T" driver.c -x none "$T/chk/librtbvh_rs.a" -lpthread -ldl -lm -o "$T/chk/$3" 2> "$log"; then return; fi
    cat "$log" >&2
    # which half failed? A program without the library must compile for this to count.
    printf 'int main(void) { return 0; }\n' | "$1" -x "$2" - -o "$T/chk/$3.probe" || exit 1
    python3 stub.py "$T/chk/$3" "$log"
}
driver gcc c c20_c
driver g++ c++ c20_cpp
