# cc.sh SRC OUT: compile a demonstration against the built repository (cwd: /repo)
gcc -g -O1 -w -D_DEFAULT_SOURCE -std=gnu11 -DWITH_SODIUM -I"$(dirname "$1")" -Isrc -Isrc/noise_xk/include -Isrc/noise_xk/include/karmel -Isrc/noise_xk/include/karmel/minimal -o "$2" "$1" src/liboprf.a src/noise_xk/liboprf-noiseXK.a -lsodium
