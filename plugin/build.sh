#!/bin/bash
# Rebuilds template.wasm (committed; rebuilding is only needed after a change of template.c).
cd "$(dirname "$0")" || exit 2
clang --target=wasm32 -O2 -nostdlib -fno-builtin -mbulk-memory -ffreestanding -Wl,--no-entry -Wl,-z,stack-size=65536 -Wall -o template.wasm template.c
