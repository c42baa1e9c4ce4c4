#!/usr/bin/env python3
"""Mirror /repo's two crates into <verif>/build/ws so that they build offline.

The sources are copied byte for byte (only when they differ, so cargo sees real changes only); the
minter's manifest keeps its dependencies except that those from github.com/dfinity/ic point to the
stand-ins in <verif>/stubs, and dev-dependencies are dropped. The wasm modules that the minter embeds
(absent from the repository) are replaced by small distinct dummies unless /repo has them.

usage: mirror.py [REPO] [WS]"""
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = sys.argv[1] if len(sys.argv) > 1 else "/repo"
WS = sys.argv[2] if len(sys.argv) > 2 else os.path.join(VERIF, "build", "ws")

WASMS = [
    "index_ng_canister_u256.wasm.gz",
    "ledger_canister_u256.wasm.gz",
    "index_ng_canister_u256.raw.wasm",
    "ledger_canister_u256.raw.wasm",
]


def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    with open(path, "wb") as f:
        f.write(data)


def mirror(crate):
    wanted = set()
    src = os.path.join(REPO, crate, "src")
    for root, _, files in os.walk(src):
        for name in files:
            full = os.path.join(root, name)
            out = os.path.join(WS, crate, "src", os.path.relpath(full, src))
            wanted.add(out)
            with open(full, "rb") as f:
                put(out, f.read())
    for root, _, files in os.walk(os.path.join(WS, crate, "src")):
        for name in files:
            if os.path.join(root, name) not in wanted:
                os.unlink(os.path.join(root, name))


def manifest(crate):
    out, keep, had_workspace = [], True, False
    with open(os.path.join(REPO, crate, "Cargo.toml")) as f:
        for line in f:
            head = re.match(r"\s*\[([^\]]+)\]", line)
            if head:
                section = head.group(1)
                keep = "dev-dependencies" not in section and not section.startswith("target.")
            if not keep:
                continue
            dep = re.match(r"\s*([\w-]+)\s*=", line)
            if dep and "github.com/dfinity/ic" in line:
                name = dep.group(1)
                path = os.path.relpath(os.path.join(VERIF, "stubs", name), os.path.join(WS, crate))
                line = '%s = { path = "%s" }\n' % (name, path)
            out.append(line)
    put(os.path.join(WS, crate, "Cargo.toml"), "".join(out))


for crate in ("evm_rpc_client", "minter"):
    mirror(crate)
    manifest(crate)
with open(os.path.join(REPO, "evm_minter.did"), "rb") as f:
    put(os.path.join(WS, "evm_minter.did"), f.read())
for name in WASMS:
    real = os.path.join(REPO, "wasm", name)
    if os.path.exists(real):
        with open(real, "rb") as f:
            put(os.path.join(WS, "wasm", name), f.read())
    else:
        put(os.path.join(WS, "wasm", name), b"\0asm dummy " + name.encode())
