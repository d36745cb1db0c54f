#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property for the working tree of /repo.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse
import json
import os
import random
import shutil
import sys
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plans  # noqa: E402
import verif  # noqa: E402
from record import record  # noqa: E402

#: seconds after which no new round of a thorough run starts
THOROUGH_SECONDS = 540


def fingerprint(case):
    return zlib.crc32(json.dumps([case.get("in"), case.get("fmt"), case.get("set"), case.get("spec")]).encode())


def run(prop, tier, seed, replay):
    started = time.time()
    plan = plans.PLANS[prop]
    driver = verif.build()
    workdir = verif.scratch(prop)
    known = verif.known_findings(prop)
    total = {"cases": 0, "distinct": set(), "substance": {}, "states": 0, "generated": 0, "rounds": 0, "events": 0}
    samples, violations, reported = [], [], {}
    try:
        while True:
            rng = random.Random(f"{prop}/{seed}/{total['rounds']}")
            if replay:
                saved = json.load(open(replay))
                cases = saved["around"] or [saved["case"]]
            else:
                cases = plan.generate(rng, tier, total["rounds"])
            by_module = {}
            for case, recording in record(driver, cases, workdir):
                by_module.setdefault(plan.module(case), []).append((case, recording))
            for module, pairs in sorted(by_module.items()):
                for start in range(0, len(pairs), plan.batch(module)):
                    part = pairs[start:start + plan.batch(module)]
                    verdicts, counts, output = verif.judge([r for _, r in part], module=module, workdir=workdir,
                                                           env=plan.environment(tier))
                    total["generated"] += counts[0]
                    total["states"] += counts[1]
                    for index, results in sorted(verdicts.items()):
                        case, recording = part[index]
                        total["cases"] += 1
                        for verdict, substance in results:
                            total["substance"][substance] = total["substance"].get(substance, 0) + 1
                            if plan.nontrivial(substance):
                                total["distinct"].add(fingerprint(case))
                                if len(samples) < 3 and total["cases"] % 7 == 1:
                                    samples.append(plan.sample(case, recording, verdict, substance))
                            if verdict == "ok":
                                continue
                            if case["id"] in known:
                                reported[case["id"]] = verdict
                            elif not any(v[0]["id"] == case["id"] for v in violations):
                                around = [c for c in cases if c.get("kind") == "history"] if case.get("kind") == "history" else []
                                violations.append((case, verdict, around))
            total["rounds"] += 1
            spent = time.time() - started
            if replay or tier != "thorough" or violations or spent > THOROUGH_SECONDS or total["rounds"] >= plan.rounds:
                break
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    for ident, verdict in sorted(reported.items()):
        print(f"KNOWN-FINDING: property={prop} {ident}: {known[ident]} ({verdict})")
    for case, verdict, around in violations[:5]:
        path = verif.save_replay(prop, case, verdict, around)
        print(f"{prop}: case {case['id']}: {verdict}")
        print(f"VIOLATION property={prop} replay={path}")
    if not replay:
        if not samples:
            samples = ["no case of this run exercised the rule"]
        coverage = plan.coverage(total, samples)
        coverage["outcomes"] = total["substance"]
        coverage["rounds"] = total["rounds"]
        verif.write_evidence(prop, tier, seed, plan.level, coverage, time.time() - started, len(violations), plan.assumptions)
    print(f"{prop}: {total['cases']} cases, {len(total['distinct'])} distinct and non-trivial, {total['states']} states, "
          f"{len(violations)} violations, {time.time() - started:.0f} s")
    return 1 if violations else 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    args = parser.parse_args()
    try:
        return run(args.property, args.tier, args.seed, args.replay)
    except verif.ToolError as e:
        print(f"{args.property}: the check could not be completed: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
