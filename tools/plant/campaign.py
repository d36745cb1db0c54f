#!/usr/bin/env python3
"""Tries edits of the code against the checks without touching /repo.

  campaign.py FILE.py [NAME...]     FILE.py defines EDITS = [(name, property, [(path, old, new)...])...]

Each edit is made in a copy of /repo below /tmp/campaign; when it builds and passes the tests, the check of its property runs from a copy
of /verif whose driver is built from that copy.  Nothing but what it prints comes of it: edits worth keeping go to bugs.py.
"""
import concurrent.futures
import os
import queue
import re
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BASE = "/tmp/campaign"
SLOTS = int(os.environ.get("SLOTS", "3"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
ENV.pop("CARGO_TARGET_DIR", None)


def sh(command, cwd, timeout=900):
    try:
        return subprocess.run(command, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(command, 99, "", "timeout")


def slot(n):
    base = f"{BASE}/{n}"
    os.makedirs(base, exist_ok=True)
    if not os.path.exists(base + "/repo"):
        sh(f"cp -a /repo {base}/repo", "/")
    sh(f"rsync -a --delete --exclude harness/target --exclude work --exclude replay {ROOT}/ {base}/verif/", "/")
    if not os.path.exists(base + "/verif"):
        sh(f"cp -a {ROOT} {base}/verif", "/")
    path = base + "/verif/harness/Cargo.toml"
    text = open(path).read()
    open(path, "w").write(re.sub(r'path = "/[^"]*repo"', f'path = "{base}/repo"', text))
    return base


def attempt(base, name, props, edits):
    repo = base + "/repo"
    sh("git checkout -q -- .", repo)
    for path, old, new in edits:
        text = open(f"{repo}/{path}").read()
        # only the code in front of the tests
        if text.split("#[cfg(test)]\nmod tests")[0].count(old) != 1:
            return f"{name}: the text occurs {text.count(old)} times in {path}: {old[:60]!r}"
        open(f"{repo}/{path}", "w").write(text.replace(old, new, 1))
    tests = sh("timeout 200 cargo test --workspace --offline --features integration", repo)
    if tests.returncode:
        lines = [l for l in (tests.stdout + tests.stderr).splitlines() if "FAILED" in l or l.startswith("error")]
        return f"{name}: TESTS FAIL {lines[:3]}"
    out = []
    for prop in props.split():
        ran = sh(f"./check.py {prop}", base + "/verif", 1200)
        caught = ran.returncode == 1 and f"VIOLATION property={prop}" in ran.stdout
        verdicts = sorted({l.split(": ")[-1] for l in ran.stdout.splitlines() if l.startswith(f"{prop}: case")})
        out.append(f"{'CAUGHT' if caught else 'MISSED'} by {prop} (rc {ran.returncode}) {verdicts[:3]} {ran.stdout.splitlines()[-1:]} {ran.stderr[-200:] if ran.returncode not in (0, 1) else ''}")
    sh("git checkout -q -- .", repo)
    return f"{name}: " + "; ".join(out)


def main():
    edits = runpy.run_path(sys.argv[1])["EDITS"]
    wanted = sys.argv[2:]
    free = queue.Queue()
    for n in range(SLOTS):
        free.put(slot(n))

    def work(item):
        base = free.get()
        try:
            print(attempt(base, *item), flush=True)
        finally:
            free.put(base)

    with concurrent.futures.ThreadPoolExecutor(SLOTS) as pool:
        list(pool.map(work, [e for e in edits if not wanted or e[0] in wanted]))


if __name__ == "__main__":
    main()
