#!/usr/bin/env python3
"""Mutation testing of the checks.

  mutation.py generate OUT.json                 mutants of the non-test code of /repo, one edit each
  mutation.py survive MUTANTS.json OUT.json     those that build and pass the tests
  mutation.py judge SURVIVORS.json OUT.json     which checks (quick, seed 1) report each of them

Works on copies below /tmp/mutation; /repo stays as it is.  A check is judged on the calls whose observation differs from the
unchanged tree's, since the verdict of all others is known.
"""
import concurrent.futures
import difflib
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
BASE = "/tmp/mutation"
REPO = "/repo"

SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" \+ 1\b", ""),
         (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \+ 2\b", " + 1"), (r" \+ 1\b", " + 2"), (r" - 1\b", " - 2"),
         (r" \+ 3\b", " + 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" && ", " || "), (r" \|\| ", " && "), (r" \* ", " + "),
         (r" / ", " * "), (r" % ", " / "), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r" << ", " >> "), (r" >> ", " << "),
         (r" & ", " | "), (r" \| ", " & "), (r"\bGeneric\(0\)", "Generic(1)"), (r"\bGeneric\(2\)", "Generic(1)"), (r"\bGeneric\(3\)", "Generic(2)"),
         (r"SignedBx\(2\)", "SignedBx(1)"), (r"\(-1\)", "(0)"), (r"Endianness::Big", "Endianness::Little"),
         (r"Endianness::Little", "Endianness::Big"), (r"\ba: a\b", "a: a + 1"), (r"Register\(a\)", "Register(a + 1)"), (r"lua50\.", "lua51."),
         (r"output\.", "lua51."), (r"lua51\.", "output."), (r"\.extra_instruction\(", ".instruction("),
         (r"builder\.instruction\(", "builder.extra_instruction("), (r"if (.*) \{$", r"if !(\1) {"), (r"\bas u8\b", "as i8 as u8"),
         (r"\bas u32\b", "as u16 as u32"), (r"\b0x([0-9A-F]+)\b", r"0x\g<1>0"), (r"\.rev\(\)", ""), (r"from_be_bytes", "from_le_bytes"),
         (r"to_be_bytes", "to_le_bytes"), (r"from_le_bytes", "from_be_bytes"), (r"to_le_bytes", "to_be_bytes"), (r"rposition", "position"),
         (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"), (r"ra1_constant", "ra2_constant"), (r"ra2_constant", "ra1_constant"),
         (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\.is_positive\(\)", ".is_negative()"), (r"line_defined", "last_line_defined"),
         (r"last_line_defined", "line_defined"), (r"i32", "u32"), (r"i64", "i32"), (r"f64", "f32"), (r"f32", "f64"),
         (r"\ba\.0\b", "b.0"), (r"\bb\.0\b", "c.0"), (r"\bc\.0\b", "b.0"), (r"instruction_width", "integer_width"),
         (r"integer_width", "size_t_width"), (r"size_t_width", "integer_width"), (r"number_width", "integer_width")]


def sources():
    found = subprocess.run(["git", "ls-files", "src"], cwd=REPO, capture_output=True, text=True).stdout.split()
    return [f for f in found if f.endswith(".rs")]


def code_lines(path):
    """The lines of a file that are neither tests nor comments nor debug output."""
    lines = open(os.path.join(REPO, path)).read().split("\n")
    out, depth, skip = [], None, False
    for number, line in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", line):
            break
        text = line.strip()
        if not text or text.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "println", "#!")) or "println!" in text:
            continue
        out.append((number, line))
    return lines, out


def generate(target):
    mutants = []
    for path in sources():
        lines, code = code_lines(path)
        for number, line in code:
            body = line.split("//")[0]
            seen = set()
            for pattern, replacement in SWAPS:
                for match in re.finditer(pattern, body):
                    changed = body[:match.start()] + re.sub(pattern, replacement, body[match.start():], count=1)
                    if changed != body and changed not in seen:
                        seen.add(changed)
                        mutants.append({"file": path, "line": number, "new": changed, "old": line})
            if re.match(r"\s+[\w\.\[\]\*]+(\(.*\)| [+\-|]?= .*);$|\s+\w+\.\w+\(.*\)\??;$", body):
                mutants.append({"file": path, "line": number, "new": "", "old": line})
    for n, m in enumerate(mutants):
        m["id"] = f"m{n}"
    json.dump(mutants, open(target, "w"), indent=0)
    print(len(mutants), "mutants")


def copy(slot):
    base = os.path.join(BASE, str(slot))
    if not os.path.exists(base):
        os.makedirs(base)
        subprocess.run(["cp", "-a", REPO, base + "/repo"], check=True)
        subprocess.run(["cp", "-a", os.path.dirname(HERE) + "/harness", base + "/harness"], check=True)
        manifest = base + "/harness/Cargo.toml"
        text = open(manifest).read().replace('"/repo"', f'"{base}/repo"')
        open(manifest, "w").write(text)
    return base


def apply(base, mutant):
    if "patch" in mutant:
        subprocess.run(["git", "apply", mutant["patch"]], cwd=base + "/repo", check=True)
        return
    path = os.path.join(base, "repo", mutant["file"])
    lines = open(path).read().split("\n")
    assert lines[mutant["line"]] == mutant["old"], mutant
    lines[mutant["line"]] = mutant["new"]
    open(path, "w").write("\n".join(lines))


def undo(base):
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=base + "/repo", check=True)


def environment(base):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("CARGO_TARGET_DIR", None)
    return env


def tests(base):
    """'build', 'tests', 'hang' or '' when everything passes."""
    env = environment(base)
    try:
        built = subprocess.run(["cargo", "test", "--workspace", "--offline", "--features", "integration", "--no-run"], cwd=base + "/repo", env=env,
                               capture_output=True, text=True)
        if built.returncode:
            return "build"
        ran = subprocess.run(["cargo", "test", "--workspace", "--offline", "--features", "integration", "--", "--test-threads", "2"],
                             cwd=base + "/repo", env=env, capture_output=True, text=True, timeout=90)
        return "tests" if ran.returncode else ""
    except subprocess.TimeoutExpired:
        return "hang"


def each(items, work, slots=8):
    free = list(range(slots))
    lock = threading.Lock()

    def one(item):
        with lock:
            slot = free.pop()
        try:
            return work(slot, item)
        finally:
            with lock:
                free.append(slot)
    with concurrent.futures.ThreadPoolExecutor(slots) as pool:
        yield from zip(items, pool.map(one, items))


def survive(source, target):
    mutants = json.load(open(source))
    for slot in range(8):
        copy(slot)

    def work(slot, mutant):
        base = copy(slot)
        apply(base, mutant)
        try:
            return tests(base)
        finally:
            undo(base)
    survivors, count = [], {}
    for mutant, outcome in each(mutants, work):
        count[outcome] = count.get(outcome, 0) + 1
        if outcome == "":
            survivors.append(mutant)
            json.dump(survivors, open(target, "w"), indent=0)
    print(count)


def driver(base):
    import verif
    env = environment(base)
    result = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=base + "/harness", env=env, capture_output=True, text=True)
    if result.returncode:
        return None
    return base + "/harness/target/debug/lunify-conformance"


def baseline(props):
    import plans
    from record import record
    path = os.path.join(BASE, "baseline.pickle")
    import hashlib
    mark = subprocess.run("cat /verif/lib/*.py; git -C /repo rev-parse HEAD", shell=True, capture_output=True).stdout
    mark = hashlib.sha1(mark).hexdigest()
    if os.path.exists(path):
        stored = pickle.load(open(path, "rb"))
        if stored["mark"] == mark and set(props) <= set(stored["data"]):
            return stored["data"]
    base = copy("base")
    program = driver(base)
    data = {}
    for prop in props:
        cases = plans.PLANS[prop].generate(random.Random(f"{prop}/1/0"), "quick", 0)
        work = os.path.join(BASE, "work-base")
        os.makedirs(work, exist_ok=True)
        data[prop] = record(program, cases, work)
    pickle.dump({"mark": mark, "data": data}, open(path, "wb"))
    return data


def judge_one(base, data, limit=60, props=None):
    import plans
    import verif
    from record import record
    program = driver(base)
    if program is None:
        return {"build": "failed"}
    work = base + "/work"
    os.makedirs(work, exist_ok=True)
    result = {}
    for prop, known in data.items():
        if props and prop not in props:
            continue
        plan = plans.PLANS[prop]
        before = {c["id"]: r for c, r in known}
        now = record(program, [c for c, _ in known], work)
        changed = [(c, r) for c, r in now if before.get(c["id"]) != r]
        if not changed:
            result[prop] = ["same", 0]
            continue
        total = len(changed)
        random.Random(1).shuffle(changed)
        findings = verif.known_findings(prop)
        changed = [x for x in changed if x[0]["id"] not in findings][:limit]
        groups = {}
        for c, r in changed:
            groups.setdefault(plan.module(c), []).append((c, r))
        bad = []
        for module, pairs in groups.items():
            try:
                verdicts, _, _ = verif.judge([r for _, r in pairs], module=module, workdir=work, env=plan.environment("quick"), workers=2)
            except verif.ToolError as e:
                bad.append("TOOL " + str(e)[:60])
                continue
            for index, results in verdicts.items():
                for verdict, _ in results:
                    if verdict != "ok":
                        bad.append(f"{pairs[index][0]['id']}:{verdict}")
        kinds = sorted({b.split(":", 1)[1] if ":" in b else b for b in bad})
        result[prop] = ["CAUGHT" if bad else "quiet", total, len(bad), kinds[:3]]
    return result


def judge(source, target):
    import plans
    mutants = json.load(open(source))
    data = baseline(sorted(plans.PLANS))
    done = json.load(open(target)) if os.path.exists(target) else []
    have = {m["id"] for m in done}
    todo = [m for m in mutants if m["id"] not in have]

    def work(slot, mutant):
        base = copy(slot)
        apply(base, mutant)
        try:
            return judge_one(base, data)
        except Exception as e:
            return {"failed": repr(e)[:200]}
        finally:
            undo(base)
    for mutant, outcome in each(todo, work, 6):
        done.append(dict(mutant, result=outcome))
        json.dump(done, open(target, "w"), indent=0)


if __name__ == "__main__":
    {"generate": generate, "survive": survive, "judge": judge}[sys.argv[1]](*sys.argv[2:])
