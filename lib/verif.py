"""Plumbing of the checks: build the driver, run the real code, hand the recordings to TLC, report."""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
REALLUA = os.path.join(ROOT, "reallua")
WORK = os.path.join(ROOT, "work")
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAY = os.path.join(ROOT, "replay")
FINDINGS = os.path.join(ROOT, "findings", "known-findings.txt")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import encode  # noqa: E402


class ToolError(Exception):
    pass


def environment():
    env = dict(os.environ)
    env["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin:/root/.cargo/bin"
    env.setdefault("HOME", "/root")
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    env["RUSTC_WRAPPER"] = ""
    return env


#: ways to build the crate: arguments of cargo, and where the driver then is
VARIANTS = {"dev": ([], "debug"), "release": (["--release"], "release"), "print": (["--features", "debug"], "debug"),
            "serde": (["--features", "serde"], "debug"), "serde-release": (["--release", "--features", "serde"], "release")}


def build(variant="dev"):
    """Builds the driver against the working tree of /repo."""
    arguments, folder = VARIANTS[variant]
    env = environment()
    if variant != "dev":
        env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", variant)
    result = subprocess.run(["cargo", "build", "--offline", "--quiet", *arguments], cwd=HARNESS, env=env, capture_output=True, text=True)
    if result.returncode != 0:
        sys.stderr.write(result.stderr)
        raise ToolError(f"the driver does not build ({variant})")
    return os.path.join(env["CARGO_TARGET_DIR"], folder, "lunify-conformance")


def scratch(name):
    os.makedirs(WORK, exist_ok=True)
    return tempfile.mkdtemp(prefix=name + "-", dir=WORK)


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(driver, lines, mode="seq", workdir=None):
    """One observation per line, in order.  A crash or a hang is an observation of the line in progress."""
    workdir = workdir or scratch("driver")
    observations = []
    rest = list(lines)
    while rest:
        source, target = os.path.join(workdir, "stimuli"), os.path.join(workdir, "observations")
        with open(source, "w") as f:
            f.write("\n".join(rest) + "\n")
        if os.path.exists(target):
            os.unlink(target)
        result = subprocess.run([driver, mode, source, target], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                env=environment(), preexec_fn=limit_memory)
        done = []
        if os.path.exists(target):
            with open(target) as f:
                for line in f:
                    try:
                        done.append(json.loads(line))
                    except ValueError:
                        break
        observations += done
        if result.returncode == 0:
            if len(done) != len(rest):
                raise ToolError("the driver lost observations")
            break
        if mode == "history":
            raise ToolError("the driver ended early: " + result.stderr[-300:])
        if len(done) >= len(rest):
            raise ToolError("the driver failed after the last stimulus: " + result.stderr[-300:])
        observations.append({"id": rest[len(done)].split("|")[0], "tag": "hang" if result.returncode == 77 else "crash",
                             "err": "", "arg": [], "out": []})
        rest = rest[len(done) + 1:]
        if sum(o["tag"] in ("hang", "crash") for o in observations) > 6:
            # enough evidence; the remaining stimuli are not run
            observations += [None] * len(rest)
            break
    return observations


def build_reallua():
    """Builds the program that runs chunks in the real Lua 5.1 interpreter; it does not depend on /repo."""
    env = environment()
    env["CARGO_TARGET_DIR"] = os.path.join(REALLUA, "target")
    result = subprocess.run(["cargo", "build", "--offline", "--quiet", "--release"], cwd=REALLUA, env=env, capture_output=True, text=True)
    if result.returncode != 0:
        sys.stderr.write(result.stderr)
        raise ToolError("the real Lua 5.1 does not build")
    return os.path.join(env["CARGO_TARGET_DIR"], "release", "reallua")


def run_reallua(lines, workdir):
    """What the interpreter does with each chunk, in order: {"real", "trace"}.  A crash or a hang is an observation."""
    program = build_reallua()
    observations = []
    rest = list(lines)
    while rest:
        source, target = os.path.join(workdir, "real-stimuli"), os.path.join(workdir, "real-observations")
        with open(source, "w") as f:
            f.write("\n".join(rest) + "\n")
        if os.path.exists(target):
            os.unlink(target)
        try:
            code = subprocess.run([program, source, target], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=environment(),
                                  preexec_fn=limit_memory, timeout=200).returncode
        except subprocess.TimeoutExpired:
            code = 77
        done = []
        if os.path.exists(target):
            with open(target) as f:
                for line in f:
                    try:
                        one = json.loads(line)
                    except ValueError:
                        break
                    done.append({"real": one["err"], "trace": one["trace"]})
        observations += done
        if code == 0 and len(done) == len(rest):
            break
        if len(done) >= len(rest):
            raise ToolError("the interpreter failed after the last chunk")
        observations.append({"real": "hang" if code == 77 else "crash", "trace": []})
        rest = rest[len(done) + 1:]
        if sum(o["real"] in ("hang", "crash") for o in observations) > 6:
            observations += [None] * len(rest)
            break
    return observations


def run_tlc(module, cfg, env=None, workers=8, timeout=800, heap="6g", extra=(), workdir=None):
    """Runs TLC and returns its output; anything but a clean end or a reported violation is a tool error."""
    workdir = workdir or scratch("tlc")
    full = environment()
    full.update(env or {})
    command = ["java", f"-Djava.io.tmpdir={workdir}", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss512m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", os.path.join(workdir, "states"), "-config", cfg, *extra, module]
    try:
        result = subprocess.run(command, cwd=SPEC, env=full, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC ran into the time limit on {module}")
    finally:
        shutil.rmtree(os.path.join(workdir, "states"), ignore_errors=True)
    return result.returncode, result.stdout + result.stderr


def tlc_counts(output):
    found = re.findall(r"(\d+) states generated, (\d+) distinct states found", output)
    return (int(found[-1][0]), int(found[-1][1])) if found else (0, 0)


def unquote(line):
    line = line.strip()
    return line[1:-1] if line.startswith('"') and line.endswith('"') else line


def judge(cases, module="Judge", workdir=None, env=None, workers=8, timeout=800):
    """Lets TLC judge the recorded cases: {index: [(verdict, substance)...]} and the state counts."""
    workdir = workdir or scratch("judge")
    path = os.path.join(workdir, "cases.ndjson")
    with open(path, "w") as f:
        for case in cases:
            f.write(json.dumps(case) + "\n")
    values = {"CASES": path}
    values.update(env or {})
    code, output = run_tlc(module + ".tla", module + ".cfg", values, workers=workers, workdir=workdir, timeout=timeout)
    verdicts = {}
    for line in output.splitlines():
        line = unquote(line)
        if line.startswith("JUDGED|"):
            _, index, verdict, substance = line.split("|", 3)
            verdicts.setdefault(int(index) - 1, []).append((verdict, substance))
    if code != 0 or len(verdicts) != len(cases):
        with open(os.path.join(WORK, "tlc-failure.txt"), "w") as f:
            f.write(output)
        tail = "\n".join(output.splitlines()[-30:])
        raise ToolError(f"TLC ended with {code} after {len(verdicts)} of {len(cases)} cases\n{tail}")
    return verdicts, tlc_counts(output), output


def known_findings(prop):
    """{case id: text} of the findings recorded for a property."""
    found = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                match = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
                if match and match.group(1) == prop:
                    found[match.group(2)] = match.group(3)
    return found


def save_replay(prop, case, verdict, around):
    """`case` is the stimulus, from which the whole recording can be made again; `around` what was done in the same process, if that
    can matter."""
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, f"{prop}-{re.sub(r'[^A-Za-z0-9_.-]', '_', str(case['id']))[:80]}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "verdict": verdict, "case": case, "around": around}, f)
    return path


def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions=()):
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
