"""Runs the real code on stimuli and makes the recordings that the specification judges.

A stimulus is a dictionary with the fields the specification sees, plus `kind`:
  call     (default) unify(in, fmt, set)
  steps    unify(in, fmt, set); unify(in, midfmt, midset); unify(that, fmt, set2); unify(first, fmt, set3)
  builds   the call made by each build of the crate
  encodings  the call made with each of several encodings of the input
  history  the call among others, again in another order, from several threads, and alone in a process
  peak     as call, but what counts is the memory it took
  layout   InstructionLayout::from_specification(spec)
  run      as call; judged by running both programs
  witness  as call; what it returns is run in the real Lua 5.1 interpreter
"""
import os
from concurrent.futures import ThreadPoolExecutor

import encode
from verif import VARIANTS, ToolError, build, run_driver, run_reallua


def plain(case):
    return {key: value for key, value in case.items() if not key.startswith("_") and key != "kind"}


def observe(driver, cases, workdir):
    """[(case, observation)] for the calls that were made."""
    if not cases:
        return []
    seen = run_driver(driver, [encode.stimulus_line(c) for c in cases], workdir=workdir)
    return [(c, o) for c, o in zip(cases, seen) if o is not None]


def made(pairs):
    """Without the calls that were not made because a layout of the settings was refused."""
    return {c["id"]: o for c, o in pairs if o["tag"] != "layout"}


def record(driver, cases, workdir):
    """[(case, recording)]"""
    kinds = {}
    for case in cases:
        kinds.setdefault(case.get("kind", "call"), []).append(case)
    done = []
    for kind, group in kinds.items():
        done += KINDS[kind](driver, group, workdir)
    return done


def calls(driver, cases, workdir):
    out = []
    for case, seen in observe(driver, cases, workdir):
        if seen["tag"] == "layout":
            # a layout of the settings was refused, so there was no call: that is for the property about layouts to judge
            if case["rule"] == "C20":
                out.append((case, refused_layout(driver, case, workdir)))
            continue
        recording = dict(plain(case), tag=seen["tag"], err=seen["err"], arg=seen["arg"], out=seen["out"])
        if case["rule"] == "C01":
            recording.update({"in": [], "out": [], "set": [], "fmt": []})
        out.append((case, recording))
    return out


def refused_layout(driver, case, workdir):
    for settings in case["set"]:
        spec = [list(p) for p in settings["layout"]]
        (_, recording), = layouts(driver, [{"id": case["id"], "rule": "LAYOUT", "spec": spec}], workdir)
        if recording["tag"] != "ok":
            return recording
    raise ToolError(f"the layouts of {case['id']} are refused only sometimes")


def steps(driver, cases, workdir):
    first = made(observe(driver, cases, workdir))
    mid = made(observe(driver, [dict(c, fmt=c["midfmt"], set=c["midset"]) for c in cases], workdir))

    def again(results, settings):
        todo = [dict(c, **{"in": results[c["id"]]["out"], "set": c[settings]}) for c in cases if results.get(c["id"], {}).get("tag") == "ok"]
        return made(observe(driver, todo, workdir))

    second, third = again(mid, "set2"), again(first, "set3")
    none = {"tag": "none", "err": "", "arg": [], "out": []}
    out = []
    for case in cases:
        ident = case["id"]
        if ident not in first or ident not in mid:
            continue
        a, m, b, c = first[ident], mid[ident], second.get(ident, none), third.get(ident, none)
        tag = next((o["tag"] for o in (a, m, b, c) if o["tag"] in ("panic", "crash", "hang")), a["tag"])
        out.append((case, dict(plain(case), tag=tag, err=a["err"], arg=a["arg"], out=a["out"], midtag=m["tag"], tag2=b["tag"],
                               out2=b["out"], tag3=c["tag"], out3=c["out"])))
    return out


def history(driver, cases, workdir):
    lines = [encode.stimulus_line(c) for c in cases]
    try:
        seen = run_driver(driver, lines, mode="history", workdir=workdir)
    except ToolError as e:
        # the process ended: which is itself an observation of every call in it
        seen = [{"obs": [{"tag": "crash", "err": "", "arg": [], "out": []}]}] if "ended early" in str(e) else None
        if seen is None:
            raise
        return [(cases[0], {"id": cases[0]["id"], "rule": "HISTORY", "tag": "crash", "obs": seen[0]["obs"]})]
    # and each call as the only one of its process
    def alone(numbered):
        n, line = numbered
        folder = os.path.join(workdir, f"alone{n % 8}")
        os.makedirs(folder, exist_ok=True)
        return run_driver(driver, [line], workdir=folder)[0]
    parts = [list(enumerate(lines))[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as pool:
        found = list(pool.map(lambda part: [(n, alone((n, line))) for n, line in part], parts))
    fresh = dict(pair for part in found for pair in part)
    strip_id = lambda o: {key: o[key] for key in ("tag", "err", "arg", "out")}
    return [(c, {"id": c["id"], "rule": "HISTORY", "tag": "ok", "obs": o["obs"] + [strip_id(fresh[n])]})
            for n, (c, o) in enumerate(zip(cases, seen)) if o["obs"][0]["tag"] != "layout"]


def builds(driver, cases, workdir):
    def one(variant):
        folder = os.path.join(workdir, variant)
        os.makedirs(folder, exist_ok=True)
        try:
            path = driver if variant == "dev" else build(variant)
        except ToolError as e:
            # what cannot be built makes no calls that could differ
            print(f"not compared: {e}")
            return {}
        return {c["id"]: o for c, o in observe(path, cases, folder)}
    with ThreadPoolExecutor(len(VARIANTS)) as pool:
        found = list(pool.map(one, VARIANTS))
    out = []
    for case in cases:
        seen = [results[case["id"]] for results in found if case["id"] in results]
        if seen and seen[0]["tag"] != "layout":
            out.append((case, {"id": case["id"], "rule": "HISTORY", "tag": "ok", "obs": [{k: o[k] for k in ("tag", "err", "arg", "out")} for o in seen]}))
    return out


def encodings(driver, cases, workdir):
    """`ways` of a case are inputs that should mean the same, with the settings for each."""
    every = [dict(case, id=f"{case['id']}/{n}", set=settings, **{"in": data})
             for case in cases for n, (data, settings) in enumerate(case["ways"])]
    seen = {c["id"]: o for c, o in observe(driver, every, workdir)}
    out = []
    for case in cases:
        found = [(way, seen.get(f"{case['id']}/{n}")) for n, way in enumerate(case["ways"])]
        found = [(way, {k: o[k] for k in ("tag", "err", "arg", "out")}) for way, o in found if o and o["tag"] != "layout"]
        if len(found) > 1:
            out.append((case, {"id": case["id"], "rule": "ENCODINGS", "tag": "ok", "ins": [way for way, _ in found],
                               "obs": [o for _, o in found]}))
    return out


def witnesses(driver, cases, workdir):
    pairs = calls(driver, cases, workdir)
    runs = [(n, case, r) for n, (case, r) in enumerate(pairs) if r["tag"] == "ok"]
    seen = run_reallua([f"{n}|{case['args']}|{case['seed']}|{bytes(r['out']).hex()}" for n, case, r in runs], workdir)
    nothing = {"real": "", "trace": []}
    found = {n: o for (n, _, _), o in zip(runs, seen)}
    # what was not run after too many crashes is left out
    return [(case, dict(r, **found.get(n, nothing))) for n, (case, r) in enumerate(pairs) if found.get(n, nothing) is not None]


def peaks(driver, cases, workdir):
    """How much memory each call took, against the sizes of what went in and came out."""
    seen = run_driver(driver, [encode.stimulus_line(c) for c in cases], mode="peak", workdir=workdir)
    return [(c, {"id": c["id"], "rule": c["rule"], "tag": o["tag"], "size": len(c["in"]), "result": len(o["out"]), "peak": o.get("peak", 0)})
            for c, o in zip(cases, seen) if o is not None and o["tag"] != "layout"]


def layouts(driver, cases, workdir):
    seen = run_driver(driver, [f"{c['id']}|{encode.layout_text(c['spec'])}" for c in cases], mode="layout", workdir=workdir)
    return [(c, dict(plain(c), tag=o["tag"], err=o["err"])) for c, o in zip(cases, seen) if o is not None]


KINDS = {"call": calls, "run": calls, "steps": steps, "history": history, "builds": builds, "encodings": encodings, "witness": witnesses, "layout": layouts, "peak": peaks}
