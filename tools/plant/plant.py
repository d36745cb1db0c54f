#!/usr/bin/env python3
"""Plants the bugs of bugs.py: writes seeded/<id>/, and confirms each in a scratch copy.

  plant.py make [ID...]      write patch.diff, demo.sh, meta.json; confirm: builds, tests pass, demo quiet before and loud after
  plant.py check [ID...]     apply to /repo, run the check of the property, undo; prints what the check said
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, HERE)
SEEDED = os.path.join(ROOT, "seeded")
COPY = "/tmp/plant/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")


def sh(command, cwd=None, timeout=600):
    try:
        return subprocess.run(command, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(command, 99, "", "timeout")


def make(bug):
    folder = os.path.join(SEEDED, bug["id"])
    os.makedirs(folder, exist_ok=True)
    sh("git checkout -q -- . ", COPY)
    for path, old, new in bug["edits"]:
        full = os.path.join(COPY, path)
        text = open(full).read()
        assert text.count(old) == 1, (bug["id"], path, text.count(old), old)
        open(full, "w").write(text.replace(old, new))
    patch = sh("git diff", COPY).stdout
    open(folder + "/patch.diff", "w").write(patch)
    shutil.copy(HERE + "/common.rs", folder + "/common.rs")
    uses_lua = "run(" in bug["demo"]
    script = open(HERE + "/demo.sh").read()
    for mark, on in [("@LUA@", uses_lua), ("@SERDE@", "serde_json" in bug["demo"]), ("@RELEASE@", "// release" in bug["demo"])]:
        script = script.replace(mark, "yes" if on else "")
    open(folder + "/demo.sh", "w").write(script)
    os.chmod(folder + "/demo.sh", 0o755)
    open(folder + "/main.rs", "w").write("mod common;\nuse common::*;\n#[allow(unused_imports)]\nuse lunify::*;\n\n" + bug["demo"].strip() + "\n")
    for name, data in bug.get("inputs", {}).items():
        text = bytes(data).hex()
        open(f"{folder}/{name}.hex", "w").write("\n".join(text[i:i + 120] for i in range(0, len(text), 120)) + "\n")
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(folder + "/meta.json", "w"), indent=1)
    tests = sh("cargo test --workspace --offline --features integration", COPY)
    good = sh(f"bash {folder}/demo.sh", "/repo")
    bad = sh(f"bash {folder}/demo.sh", COPY)
    sh("git checkout -q -- . ", COPY)
    ok = tests.returncode == 0 and good.returncode == 0 and bad.returncode not in (0, 3, 99)
    print(f"{bug['id']}: {'OK' if ok else 'NOT USABLE'} tests {tests.returncode} before {good.returncode} after {bad.returncode}")
    if tests.returncode:
        print("\n".join(l for l in tests.stdout.splitlines() + tests.stderr.splitlines() if "FAILED" in l or "error" in l)[:1200])
    if good.returncode:
        print((good.stdout + good.stderr)[-1500:])
    print("   ", bad.stderr.strip()[-400:].replace("\n", "\n    "))


def check(ident, prop=None):
    folder = os.path.join(SEEDED, ident)
    prop = prop or json.load(open(folder + "/meta.json"))["property"]
    assert not sh("git status --porcelain", "/repo").stdout
    applied = sh(f"git apply {folder}/patch.diff", "/repo")
    assert applied.returncode == 0, applied.stderr
    try:
        ran = sh(f"{ROOT}/check.py {prop}", ROOT, 1200)
    finally:
        sh("git checkout -q -- .", "/repo")
    caught = ran.returncode == 1 and f"VIOLATION property={prop}" in ran.stdout
    verdicts = sorted({l.split(": ")[-1] for l in ran.stdout.splitlines() if l.startswith(f"{prop}: case")})
    print(f"{ident}: {'CAUGHT' if caught else 'MISSED'} by {prop} (rc {ran.returncode}) {verdicts[:3]} {ran.stdout.splitlines()[-1:]}")


if __name__ == "__main__":
    what, wanted = sys.argv[1], sys.argv[2:]
    if what == "make":
        from bugs import BUGS
        if not os.path.exists(COPY):
            os.makedirs(os.path.dirname(COPY), exist_ok=True)
            sh(f"cp -a /repo {COPY}")
        for bug in BUGS:
            if not wanted or bug["id"] in wanted:
                make(bug)
    else:
        for ident in wanted or sorted(os.listdir(SEEDED)):
            check(*ident.split("@"))
