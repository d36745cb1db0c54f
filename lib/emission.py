"""Programs from the specification: runs Emission.tla, and turns what it prints into functions to encode."""
import concurrent.futures
import json
import os
import shutil

import verif
from encode import SIGNED, WIDE, function


def operand(v):
    return ("k", -v - 1) if v < 0 else v


def instruction(version, i):
    op, a, b, c, x = i
    if op in SIGNED or op in WIDE[version]:
        return (op, a, x)
    return (op, a, operand(b), operand(c))


def constant(k):
    return k[1] if k[0] == "num" else bytes(k[1][:-1])


def convert(version, fn):
    return function(code=[instruction(version, i) for i in fn["code"]], consts=[constant(k) for k in fn["consts"]],
                    subs=[convert(version, s) for s in fn["subs"]], params=fn["params"], vararg=fn["vararg"], stack=fn["stack"],
                    nups=fn["nups"], upnames=[], lines=fn["lines"], locals=[], source=None, line=fn["line"],
                    last=fn["last"] if version == 81 else fn["line"])


def emitted(menu, version, batch, statements, nesting, parts=1, part=0, workers=4):
    """[(trail, function)] in a fixed order."""
    work = verif.scratch("emission")
    env = {"MENU": menu, "VERSION": str(version), "BATCH": str(batch), "STATEMENTS": str(statements), "NESTING": str(nesting),
           "PARTS": str(parts), "PART": str(part)}
    try:
        code, output = verif.run_tlc("Emission.tla", "Emission.cfg", env, workers=workers, workdir=work, heap="4g")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    programs = {}
    for line in output.splitlines():
        if line.startswith('"EMITTED|'):
            made = json.loads(json.loads(line)[8:])
            programs[json.dumps(made["trail"])] = made["main"]
    if code != 0 or not programs:
        raise verif.ToolError(f"Emission {menu} ended with {code}\n" + "\n".join(output.splitlines()[-20:]))
    return [(trail, convert(version, programs[trail])) for trail in sorted(programs)]


def several(requests):
    """The results of emitted(*request) for each request, computed side by side."""
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        return list(pool.map(lambda r: emitted(*r, workers=2), requests))
