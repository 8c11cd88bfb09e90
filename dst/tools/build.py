#!/usr/bin/env python3
"""Builds the simulation harness against /repo's current working tree.

The crate is copied (by content, so that cargo rebuilds only what changed) to /verif/build/ws with a
derived Cargo.toml: `may`, which is unreachable here, and the crates through which threads, channels,
locks, randomness, futures and the database come are replaced by the facades under /verif/dst/facade. No source file of the crate is changed.

usage: build.py [plain|mongo|unbounded|cycle|dot|coro|coromongo]...     prints one "<name> <binary>" line each
"""
import fcntl
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
WS = os.path.join(BUILD, "ws")
FACADE = os.path.join(VERIF, "dst", "facade")
SETS = {
    "plain": ["threads"],
    "mongo": ["threads", "mongo"],
    "unbounded": ["threads", "unbounded"],
    "cycle": ["threads", "cycle"],
    "dot": ["threads", "dot"],
    "coro": ["coro"],
    "coromongo": ["coro", "mongo"],
}
# Nobody here can compile the crate with coroutines but this harness: not a reason to give no answer.
OPTIONAL = ("coro", "coromongo")
FACADES = {
    "crossbeam": "crossbeam",
    "parking_lot": "parking-lot",
    "thread-priority": "thread-priority",
    "fastrand": "fastrand",
    "futures": "futures",
    "mongodb": "mongodb",
}


def put(path, data):
    """Writes only what differs."""
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def derive(text):
    # threads and coroutines are both asked for by name (see the harness' manifest)
    may = 'may = { package = "dam-sim-may", path = "%s/may", optional = true }\n' % FACADE
    text = re.sub(r"(?m)^may\s*=\s*(?:\{[^}]*\}|[^\n{]*)[ \t]*\n", may, text)
    # sections this build has no use for
    out, skip = [], False
    for line in text.splitlines():
        m = re.match(r"\s*\[+\s*([^\]]+?)\s*\]+", line)
        if m and line.lstrip().startswith("["):
            name = m.group(1)
            skip = name.split(".")[0] in ("dev-dependencies", "bench", "profile", "test", "example", "workspace")
            if name.startswith("dependencies."):
                dep = name.split(".", 1)[1]
                if dep in FACADES:
                    skip = True
        if not skip:
            out.append(line)
    text = "\n".join(out) + "\n"
    # one-line dependencies
    for dep in FACADES:
        text = re.sub(r"(?m)^%s\s*=.*(?:\n(?!\[|\w).*)*\n" % re.escape(dep), "", text)
    extra = "".join(
        '%s = { package = "dam-sim-%s", path = "%s/%s"%s }\n'
        % (dep, pkg, FACADE, pkg.replace("-", "_"), ", optional = true" if dep == "mongodb" else "")
        for dep, pkg in FACADES.items()
    )
    extra += 'dam_sim_std = { path = "%s/simstd" }\n' % FACADE
    assert re.search(r"(?m)^\[dependencies\]", text), "no [dependencies] section"
    text = re.sub(r"(?m)^\[dependencies\]\n", lambda m: "[dependencies]\n" + extra, text, count=1)
    return text + "\n[workspace]\n"


def sync():
    want = set()
    for sub in ("src", "dam-macros"):
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs[:] = [d for d in dirs if d not in ("target", ".git")]
            for f in files:
                if f == "Cargo.lock":
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)
                want.add(rel)
                with open(p, "rb") as fh:
                    put(os.path.join(WS, rel), fh.read())
    for root, dirs, files in os.walk(WS):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), WS)
            if rel not in want and rel not in ("Cargo.toml", "Cargo.lock"):
                os.unlink(os.path.join(root, f))
    with open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8") as f:
        put(os.path.join(WS, "Cargo.toml"), derive(f.read()).encode())


def cargo(features, cfgs, name):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(k, None)
    # the lints of a foreign build are nobody's business here
    env["RUSTFLAGS"] = " ".join("--cfg " + c for c in cfgs) + " --cap-lints allow"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["DAM_SRC"] = WS
    cmd = ["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(BUILD, "harness", "Cargo.toml"),
           "--features", ",".join(features)]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def harness():
    """The harness' manifest names the overlay, whose place depends on BUILD."""
    src = os.path.join(VERIF, "dst", "harness")
    dst = os.path.join(BUILD, "harness")
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            with open(p, "rb") as fh:
                data = fh.read()
            if rel == "Cargo.toml":
                data = data.replace(b"@WS@", WS.encode()).replace(b"@DST@", os.path.join(VERIF, "dst").encode())
            put(os.path.join(dst, rel), data)


def main():
    names = sys.argv[1:] or ["plain"]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sync()
        harness()
        for n in names:
            # The DRAM needs constructors that only exist under a second flag, so that a change to its
            # private fields cannot take the other checks down with it.
            code, out = cargo(SETS[n] + ["dram"], ["dam_sim", "dam_sim_dram"], n)
            if code != 0:
                code2, out2 = cargo(SETS[n], ["dam_sim"], n)
                if code2 != 0:
                    sys.stderr.write(out[-12000:])
                    if n in OPTIONAL:
                        print(n, "-")
                        continue
                    sys.exit(2)
            src = os.path.join(BUILD, "target", "release", "dst")
            dst = os.path.join(BUILD, "bin", "dst-" + n)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            tmp = dst + ".tmp%d" % os.getpid()
            with open(src, "rb") as a, open(tmp, "wb") as b:
                b.write(a.read())
            os.chmod(tmp, 0o755)
            os.replace(tmp, dst)
            print(n, dst)


main()
