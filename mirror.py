#!/usr/bin/env python3
"""Lays out /verif/build/ws: a cargo workspace with the crates of /repo that the harnesses need.

Why a mirror and not plain path dependencies: the sandbox has no network and a dozen of /repo's
external dependencies (parity-scale-codec, merkletree-mintlayer, lmdb-mintlayer, ...) are not in the
cargo cache.  Cargo cannot substitute a *git* dependency that was never fetched (not even with
[patch]), so the manifests have to be derived.  Everything else is a byte-for-byte copy of /repo's
current working tree (every source file, nothing blanked, nothing added), and the missing external
crates are replaced by the stand-ins of /verif/shims.

Files are written only when their *content* changes (and vanish when they vanish in /repo), so cargo
rebuilds exactly what changed, whatever the mtimes in /repo are."""

import json
import os
import shutil
import sys
import tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.environ.get("VERIF_WS", f"{HERE}/build/ws")

SCOPE = (os.environ.get("VERIF_EXTRA", "") + """
accounting common consensus crypto logging mempool mempool/types mintscript mocks networking
orders-accounting p2p p2p/types p2p/test-utils pos-accounting randomness rpc rpc/description
rpc/description-macro rpc/types script serialization serialization/core serialization/tagged
serialization/tagged/derive storage storage/core storage/inmemory storage/lmdb storage/sqlite

subsystem test-utils tokens-accounting utils utils/build_utils utils/log_error utils/networking
utils/typename utils/typename-derive utxo chainstate chainstate/storage chainstate/types
chainstate/tx-verifier chainstate/constraints-value-accumulator chainstate/test-framework
chainstate/launcher storage/failing
wallet wallet/types wallet/storage
""").split()

SHIMS = {
    # crate name -> shim directory
    "parity-scale-codec": "parity-scale-codec",
    "merkletree-mintlayer": "merkletree-mintlayer",
    "mintlayer-core-primitives": "mintlayer-core-primitives",
    "mockall": "mockall",
    "oneshot": "oneshot",
    "byte-unit": "byte-unit",
    "hashbrown": "hashbrown",
    "enum-iterator": "enum-iterator",
    "enumflags2": "enumflags2",
    "arraytools": "arraytools",
    "tokio-socks": "tokio-socks",
    "snowstorm": "snowstorm",
    "lmdb-mintlayer": "lmdb-mintlayer",
}
# /repo's version is not in the cargo cache, an API-compatible one is
RELAX = {"socket2": "0.6"}
# never available, never needed by what is built
DROP = {"trezor-client", "ledger-lib", "ledger-proto", "mintlayer-ledger-messages", "iced_aw"}
# dev-dependencies are only kept for these packages (used to validate the shims by /repo's own tests)
DEV = set(os.environ.get("VERIF_DEV", "").split())

wanted = set()
changed = []


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    wanted.add(os.path.relpath(path, WS))
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    changed.append(os.path.relpath(path, WS))
    with open(path, "wb") as f:
        f.write(data)


def toml(value):
    if isinstance(value, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(v)}" for k, v in value.items()) + " }"
    if isinstance(value, list):
        return "[" + ", ".join(toml(v) for v in value) + "]"
    return json.dumps(value)


def table(name, value):
    return f"[{name}]\n" + "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in value.items()) + "\n"


def shim_spec(name, spec):
    """The spec with git/registry sources replaced by a shim, or None when it has to go."""
    s = dict(spec) if isinstance(spec, dict) else {"version": spec}
    crate = s.get("package", name)
    if crate in DROP or ("git" in s and crate not in SHIMS):
        return None
    if crate in RELAX:
        s["version"] = RELAX[crate]
        return s
    if crate in SHIMS:
        for k in ("git", "rev", "branch", "tag", "version"):
            s.pop(k, None)
        s["path"] = f"{HERE}/shims/{SHIMS[crate]}"
        return s
    return spec


def deps(pkg, value, external):
    out = {}
    for name, spec in value.items():
        s = spec if isinstance(spec, dict) else {}
        if s.get("workspace"):
            if name not in external:
                continue
            out[name] = spec
        elif "path" in s:
            if os.path.normpath(os.path.join(pkg, s["path"])) in SCOPE:
                out[name] = spec
        else:
            r = shim_spec(name, spec)
            if r is not None:
                out[name] = r
    return out


def manifest(pkg, external):
    with open(f"{REPO}/{pkg}/Cargo.toml", "rb") as f:
        m = tomllib.load(f)
    kinds = ["dependencies", "build-dependencies"]
    if pkg in DEV:
        kinds.append("dev-dependencies")
    text = ""
    kept = set()
    for kind in ("dependencies", "build-dependencies", "dev-dependencies"):
        kept |= set(deps(pkg, m.get(kind, {}), external))
    for t in m.get("target", {}).values():
        for kind in ("dependencies", "build-dependencies", "dev-dependencies"):
            kept |= set(deps(pkg, t.get(kind, {}), external))
    for key, value in m.items():
        if key in ("dependencies", "build-dependencies", "dev-dependencies"):
            if key in kinds:
                text += table(key, deps(pkg, value, external))
        elif key == "target":
            for cfg, t in value.items():
                for kind, v in t.items():
                    if kind in kinds:
                        text += table(f"target.{json.dumps(cfg)}.{kind}", deps(pkg, v, external))
        elif key == "features":
            feats = {}
            for fname, fl in value.items():
                feats[fname] = [
                    x for x in fl
                    if not x.startswith("dep:") and "/" not in x
                    or x.removeprefix("dep:").split("/")[0].rstrip("?") in kept
                ]
                if fname == "default":
                    feats[fname] = [x for x in feats[fname] if x not in ("trezor", "ledger")]
            text += table(key, feats)
        elif key in ("bench", "test", "bin", "example"):
            for v in value:
                if pkg in DEV or key == "bin":
                    text += "[" + table(key, v).replace("]\n", "]]\n", 1)
        elif key == "lints":
            text += table(key, value) if value.get("workspace") else "".join(
                table(f"lints.{k}", v) for k, v in value.items())
        else:
            text += table(key, value)
    return text


def lay_out():
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        root = tomllib.load(f)
    ws = root["workspace"]
    external = {}
    for name, spec in ws["dependencies"].items():
        s = spec if isinstance(spec, dict) else {}
        if "path" in s:
            if os.path.normpath(s["path"]) in SCOPE:
                external[name] = spec
            continue
        r = shim_spec(name, spec)
        if r is not None:
            external[name] = r
    harness = sorted(
        d for d in os.listdir(f"{HERE}/mc") if os.path.exists(f"{HERE}/mc/{d}/Cargo.toml")
    )
    rel = os.path.relpath(f"{HERE}/mc", WS)
    members = SCOPE + [f"{rel}/{d}" for d in harness]
    text = table("workspace", {"members": members, "resolver": "3"})
    text += table("workspace.package", ws["package"])
    text += table("workspace.dependencies", external)
    if "lints" in ws:
        text += table("workspace.lints", ws["lints"])
    with open(f"{HERE}/profile.toml") as f:
        text += f.read()
    write(f"{WS}/Cargo.toml", text)
    with open(f"{REPO}/.cargo/config.toml") as f:
        write(f"{WS}/.cargo/config.toml", f.read().replace('"tokio_unstable"', '"tokio_unstable", "-A", "warnings"'))
    lock = f"{HERE}/Cargo.lock"
    if os.path.exists(lock):
        # the committed lock; cargo may only add what a new harness needs
        with open(lock) as f:
            text = f.read()
        wanted.add("Cargo.lock")
        if not os.path.exists(f"{WS}/Cargo.lock"):
            write(f"{WS}/Cargo.lock", text)
    else:
        wanted.add("Cargo.lock")
    for pkg in SCOPE:
        if not os.path.isdir(f"{REPO}/{pkg}"):
            continue
        for base, dirs, files in os.walk(f"{REPO}/{pkg}"):
            r = os.path.relpath(base, REPO)
            dirs[:] = [
                d for d in dirs if d != "target" and not os.path.exists(f"{base}/{d}/Cargo.toml")
                and (pkg in DEV or not (r == pkg and d in ("tests", "benches", "examples")))
            ]
            for f in files:
                path = f"{r}/{f}"
                if path == f"{pkg}/Cargo.toml":
                    write(f"{WS}/{path}", manifest(pkg, external))
                elif not os.path.islink(f"{base}/{f}"):
                    with open(f"{base}/{f}", "rb") as h:
                        write(f"{WS}/{path}", h.read())
    for name in ("README.md",):
        with open(f"{REPO}/{name}", "rb") as f:
            write(f"{WS}/{name}", f.read())
    for base, dirs, files in os.walk(WS):
        if base == WS:
            dirs[:] = [d for d in dirs if d not in ("target", "target-loom")]
        for f in files:
            if os.path.relpath(f"{base}/{f}", WS) not in wanted:
                os.remove(f"{base}/{f}")
                changed.append(f"-{os.path.relpath(f'{base}/{f}', WS)}")


if __name__ == "__main__":
    lay_out()
    if "-v" in sys.argv:
        print(f"{len(wanted)} files, {len(changed)} changed", *changed[:20], file=sys.stderr)
