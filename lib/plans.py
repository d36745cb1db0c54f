"""What each check explores: generator, specification module, evidence."""
import re

import emission
import gen
from encode import dialect, strip


def decoy(case, rng):
    """Other settings for the version that the input is not of: they must not matter."""
    data = case["in"]
    if data[:4] != [27, 76, 117, 97] or len(data) < 5 or data[4] not in (80, 81):
        return
    other = 81 - data[4]
    for key in ("set", "midset", "set2", "set3"):
        if key in case:
            case[key] = list(case[key])
            case[key][other] = dict(case[key][other], limit=rng.choice([250, 1, 20, 100, 255]), fpf=rng.choice([32, 50, 1, 2, 3, 8, 64]),
                                    layout=gen.random_layout(rng, 32))


class Plan:
    level = "exploration"
    technique = "TLA+ specification of Lua byte code and of the conversion contract; TLC judges recorded calls of the real code"
    note = ("Every recorded call of unify on this run's inputs was judged by TLC against the contract in spec/Contract.tla. Inputs are "
            "generated systematically around borders and at random, so calls outside of them are not covered. Trusted: the specification "
            "of the two chunk formats and instruction sets, TLC, and the driver that records calls.")
    rounds = 60
    assumptions = ("the reading of Lua 5.0 and 5.1 byte code in spec/LuaChunk.tla and spec/LuaOpcodes.tla",
                   "TLC evaluates the specification correctly", "the driver records what unify returned")
    rule = ""

    def __init__(self, generator, quick=1.0, thorough=4.0, rule="", dull=("rejected", "refused"), emitted=()):
        self.generator, self.quick, self.thorough, self.rule, self.dull = generator, quick, thorough, rule, dull
        self.emitted = emitted

    def generate(self, rng, tier, round_):
        cases = self.generator(rng, self.thorough if tier == "thorough" else self.quick) + self.emissions(rng, tier, round_)
        for case in cases:
            if "in" in case and "left" not in case and rng.random() < 0.5:
                decoy(case, rng)
        return cases


    def emissions(self, rng, tier, round_):
        """Programs that Emission.tla writes.

        Each source is (menu, version, batch, statements, most, pages).  A quick run takes at most `most` of all programs of that many
        statements; a thorough run takes all of them in its first round, and a part of those with one statement more in every other."""
        requests = []
        for menu, version, batch, statements, most, _ in self.emitted:
            if tier != "thorough" or round_ == 0:
                requests.append((menu, version, batch, statements, 3))
            else:
                parts = 150 if menu in ("items", "mixed") else 20
                more = 0 if menu == "items" and statements > 1 else 1
                requests.append((menu, version, batch, statements + more, 3, parts, rng.randrange(parts)))
        cases = []
        for (menu, version, batch, statements, most, pages), programs in zip(self.emitted, emission.several(requests)):
            rng.shuffle(programs)
            most = most if tier != "thorough" else 3000 if round_ == 0 else 600
            for n, (trail, fn) in enumerate(programs[:most]):
                if rng.random() < 0.15:
                    fn = strip(fn)
                ident = f"emit-{menu}-{version}-{batch}-{n}-" + re.sub(r"[^a-z0-9]+", "-", trail).strip("-")
                cases.append(gen.product(ident, self.name, fn, version, rng, batch, dialect(81, fpf=rng.choice(pages)), rng.choice((0, 0, 1, 3)),
                                         limit=60000))
        if not isinstance(self, Product):
            cases = [gen.case(c["id"], c["rule"], c["fmt"], c["set"], c["in"]) for c in cases]
        return cases

    def module(self, case):
        return "Judge"

    def batch(self, module):
        return 6000

    def environment(self, tier):
        return {}

    def nontrivial(self, substance):
        return not substance.startswith(self.dull)

    def sample(self, case, recording, verdict, substance):
        data = case.get("in", [])
        shown = bytes(data[:160]).hex() + ("..." if len(data) > 160 else "")
        return {"id": case["id"], "input_hex": shown, "format": case.get("fmt"), "spec": case.get("spec"), "verdict": verdict,
                "outcome": substance}

    def coverage(self, total, samples):
        return {"evaluations": total["cases"], "distinct_nontrivial": len(total["distinct"]), "rule": self.rule, "samples": samples,
                "states": total["states"], "transitions": total["generated"] - total["cases"]}


class Product(Plan):
    """Both programs are run side by side by TLC."""
    level = "model_checking"
    technique = ("TLA+ specification of the Lua 5.0 and 5.1 virtual machines; TLC explores the product of each original program and what "
                 "the real code made of it")
    note = ("For each program of this run, TLC explored the product of the original under Lua 5.0 (or 5.1) and the conversion under Lua "
            "5.1, for all answers of the environment within the bounds (3 free choices and 24 events per path; 1500 instructions between "
            "events). The programs are generated, so others are not covered. Trusted: the specification of the two virtual machines, TLC, "
            "and the driver.")
    rounds = 60
    assumptions = ("the reading of the two virtual machines in spec/LuaVM.tla", "TLC evaluates the specification correctly",
                   "the driver records what unify returned", "what opaque values do depends on nothing but the events")

    def module(self, case):
        return "Product" if case.get("kind") == "run" else "Judge"

    def batch(self, module):
        return 800 if module == "Product" else 6000

    def environment(self, tier):
        return {"BUDGET": "5", "HORIZON": "40"} if tier == "thorough" else {}

    def nontrivial(self, substance):
        return substance in ("done", "upcast", "reencoded", "repaged") or substance.startswith("error:")

    def coverage(self, total, samples):
        found = super().coverage(total, samples)
        found.update({"transitions": total["generated"], "traces_validated_against_impl": total["cases"]})
        return found


class Witness(Product):
    """The conversion is run by the real interpreter, the original by the specification."""
    level = "exploration"
    technique = ("TLA+ specification of the Lua 5.0 and 5.1 virtual machines; TLC validates traces of the real Lua 5.1 interpreter, running "
                 "what the real code returned, against the original program")
    note = ("For each program of this run, the conversion was run by the reference Lua 5.1 interpreter in an environment of opaque values, "
            "and TLC validated the trace of its events against the original program on the specified virtual machine, given the same "
            "answers. One environment per program, up to 24 events. Trusted: the specification of the virtual machine of the original's "
            "version, TLC, the interpreter built from the vendored sources of the mlua crate, the observer, and the driver.")

    def generate(self, rng, tier, round_):
        cases = super().generate(rng, tier, round_)
        return [c if c["kind"] == "witness" else gen.witness(c, c["id"], rng) for c in cases]

    def module(self, case):
        return "Witness"

    def batch(self, module):
        return 1500


#: fields per flush of the converted code, for code that flushes every one, two or three fields
PAGES = (50, 1, 2, 3, 4, 5)

PLANS = {
    "C01": Plan(gen.c01, 4, 20, dull=("nothing",), rule="Mutated and generated chunks under random formats and settings; every call counts. "
                "Distinct: different input, format or settings."),
    "C02": Plan(gen.c02, 6, 20, rule="Both versions into each output format and signature; non-trivial: converted, not passed through or refused.",
                dull=("rejected", "refused", "passed")),
    "C03": Plan(gen.c03, 6, 20, rule="Chunks whose format, settings, signature or version differ from the request in one field, or not at all; "
                "non-trivial: passed through or converted."),
    "C04": Plan(gen.c04, 6, 20, rule="Well-formed chunks, many at a representation limit; non-trivial: every one that is well-formed.",
                dull=("rejected",)),
    "C05": Plan(gen.c05, 6, 20, rule="Lua 5.1 chunks between formats and layouts; non-trivial: converted.", dull=("rejected", "refused", "passed")),
    "C06": Plan(gen.c06, 6, 20, rule="Strings of all byte values in every place; non-trivial: converted.", dull=("rejected", "refused", "passed")),
    "C07": Plan(gen.c07, 6, 20, rule="Boundary and random values between all pairs of number formats; non-trivial: well-formed.", dull=("rejected",)),
    "C08": Plan(gen.c08, 6, 20, rule="Instructions with operands at the borders of their fields between random layouts; non-trivial: well-formed.",
                dull=("rejected",)),
    "C09": Plan(gen.c09, 6, 20, rule="Every header field and content tag with wrong values, alone and in pairs; non-trivial: rejected.",
                dull=("upcast", "reencoded", "passed", "repaged", "refused")),
    "C10": Plan(gen.c10, 6, 20, rule="All prefixes and some extensions of chunks, inflated counts; non-trivial: rejected.",
                dull=("upcast", "reencoded", "passed", "repaged", "refused")),
    "C11": Product(gen.c11, 6, 20, rule="Programs with branches, calls and everything whose length changes; non-trivial: run to an end.",
                   emitted=[("branch", 80, 32, 3, 700, (50,)), ("mixed", 80, 2, 3, 300, PAGES), ("branch", 81, 50, 3, 100, (50,)),
                            ("branch", 80, 32, 4, 200, (50,))]),
    "C12": Product(gen.c12, 6, 20, rule="Programs with numeric loops; non-trivial: run to an end.",
                   emitted=[("for", 80, 32, 3, 330, (50,)), ("for", 80, 32, 4, 500, (50,))]),
    "C13": Product(gen.c13, 6, 20, rule="Programs with generic loops; non-trivial: run to an end.",
                   emitted=[("forin", 80, 32, 3, 189, (50,)), ("forin", 80, 32, 4, 500, (50,))]),
    "C14": Product(gen.c14, 6, 20, rule="Constructors around the borders of batches between pairs of batch sizes; non-trivial: run to an end.",
                   emitted=[("items", 80, 2, 1, 135, PAGES), ("items", 81, 2, 1, 135, PAGES), ("items", 80, 3, 2, 150, PAGES), ("items", 81, 2, 2, 150, PAGES),
                            ("table", 80, 1, 2, 150, PAGES), ("table", 80, 2, 2, 150, PAGES), ("table", 81, 3, 2, 150, PAGES)]),
    "C15": Product(gen.c15, 6, 20, rule="Variadic functions called with few and many arguments; non-trivial: run to an end.",
                   emitted=[("vararg", 80, 32, 3, 312, (50,)), ("vararg", 80, 32, 4, 500, (50,))]),
    "C16": Product(gen.c16, 6, 20, rule="Programs with closures, at depths up to the limit; non-trivial: converted.", dull=("rejected", "refused", "passed"),
                   emitted=[("closure", 80, 32, 3, 194, (50,)), ("closure", 81, 50, 3, 150, (50,)), ("closure", 80, 32, 4, 500, (50,))]),
    "C17": Plan(gen.c17, 6, 20, rule="Functions of all sizes around the stack limit; non-trivial: well-formed.", dull=("rejected",),
                emitted=[("mixed", 80, 2, 3, 300, PAGES), ("forin", 80, 32, 3, 100, PAGES), ("mixed", 81, 2, 3, 100, PAGES)]),
    "C18": Product(gen.c18, 6, 20, rule="Programs with and without line information; non-trivial: converted.", dull=("rejected", "refused", "passed"),
                   emitted=[("mixed", 80, 2, 3, 400, PAGES), ("mixed", 81, 2, 3, 200, PAGES)]),
    "C19": Plan(gen.c19, 6, 20, rule="Compiled programs and random loadable code; non-trivial: converted.", dull=("rejected", "refused", "passed"),
                emitted=[("mixed", 80, 2, 3, 300, PAGES), ("forin", 80, 32, 3, 100, PAGES), ("mixed", 81, 2, 3, 100, PAGES)]),
    "C20": Plan(gen.c20, 4, 12, rule="Layout specifications in and around the valid ones, and code written with accepted layouts.",
                dull=("rejected", "refused", "passed")),
    "C21": Plan(gen.c21, 6, 20, rule="Chunks converted directly and through a format in between, and results converted again; non-trivial: converted.",
                dull=("rejected", "refused")),
    "C22": Plan(gen.c22, 6, 20, rule="Programs whose constants look like added names; non-trivial: converted.", dull=("rejected", "refused", "passed"),
                emitted=[("mixed", 80, 2, 3, 300, PAGES), ("forin", 80, 32, 3, 100, PAGES), ("mixed", 81, 2, 3, 100, PAGES)]),
    "C23": Plan(gen.c23, 6, 20, rule="The same calls in two orders and from four threads; every stimulus counts.", dull=("nothing",)),
    "C24": Product(gen.c24, 6, 20, rule="Calls that leave settings and format to the crate's defaults; non-trivial: well-formed.", dull=("rejected",)),
    "C25": Plan(gen.c25, 6, 20, rule="The same calls made by each build of the crate; every stimulus counts.", dull=("nothing",)),
    "C26": Plan(gen.c26, 6, 20, rule="Several encodings of the same functions; non-trivial: the specification reads them as the same.", dull=("different",)),
}

PLANS["C27"] = Witness(gen.c27, 6, 20, rule="Programs of all kinds, converted and run by the real interpreter; non-trivial: run to an end.",
                      emitted=[("mixed", 80, 2, 3, 120, (50,)), ("branch", 80, 32, 3, 100, (50,)), ("forin", 80, 32, 3, 60, (50,)),
                               ("items", 80, 3, 2, 80, (50,)), ("items", 81, 2, 2, 80, (50,)), ("closure", 81, 2, 3, 60, (50,)),
                               ("vararg", 80, 32, 3, 60, (50,))])

PLANS["C28"] = Product(gen.c28, 6, 20, rule="Programs with local variables around code of every translation; non-trivial: converted.",
                       dull=("rejected", "refused", "passed"),
                       emitted=[("mixed", 80, 2, 3, 300, PAGES), ("mixed", 81, 2, 3, 150, PAGES), ("forin", 80, 32, 3, 80, PAGES)])

PLANS["C29"] = Plan(gen.c29, 6, 20, rule="Chunks that claim more than they hold, hostile bytes, and large chunks; every call counts.", dull=("nothing",))

for name, plan in PLANS.items():
    plan.name = name
