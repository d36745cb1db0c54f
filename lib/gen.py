"""The inputs of the checks: one generator per property, all deterministic in (seed, scale)."""
import itertools
import os
import random
import struct

import encode
import luac
from encode import Raw, Unencodable, chunk, default_settings, dialect, function, strip
from soup import Soup, edge_function, random_string

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT = list(encode.DEFAULT_FORMAT)


def fixtures():
    folder = os.path.join(ROOT, "fixtures")
    return {name: open(os.path.join(folder, name), "rb").read() for name in sorted(os.listdir(folder))}


def all_formats(tags=(0,)):
    for tag in tags:
        for little, iw, sw, cw, nw, g in itertools.product((0, 1), (4, 8), (4, 8), (4, 8), (4, 8), (0, 1)):
            yield [tag, little, iw, sw, cw, nw, g]


def random_format(rng, integral=None, tag=True, cw=None):
    return [rng.choice([0, 0, 1, 255]) if tag else 0, rng.randrange(2), rng.choice((4, 8)), rng.choice((4, 8)),
            cw or rng.choice((4, 8)), rng.choice((4, 8)), rng.randrange(2) if integral is None else integral]


def random_layout(rng, bits=32, wide=False):
    """A valid layout of at most `bits` bits."""
    while True:
        o, a = rng.choice([6, 6, 7, 8]), rng.choice([7, 8, 8, 9])
        b, c = rng.choice([8, 9, 9, 10]), rng.choice([8, 9, 9, 10])
        if wide:
            o, a, b, c = rng.randint(6, 20), rng.randint(7, 20), rng.randint(8, 24), rng.randint(8, 24)
        if o + a + b + c > bits:
            continue
        pair = [[3, b], [4, c]]
        rng.shuffle(pair)
        rest = [[1, o], [2, a]]
        rng.shuffle(rest)
        at = rng.randint(0, 2)
        return rest[:at] + pair + rest[at:]


def layout_of(rng, total):
    """A valid layout of exactly so many bits."""
    sizes = {1: 6, 2: 7, 3: 8, 4: 8}
    for _ in range(total - sum(sizes.values())):
        sizes[rng.choice([o for o in sizes if sizes[o] < 31])] += 1
    order = [1, 2]
    rng.shuffle(order)
    pair = [3, 4]
    rng.shuffle(pair)
    at = rng.randint(0, 2)
    return [[o, sizes[o]] for o in order[:at] + pair + order[at:]]


def case(ident, rule, fmt, settings, data):
    return {"id": ident, "rule": rule, "fmt": list(fmt), "set": settings, "in": list(data)}


def source(rng, version=None, integral=0, focus=None, size=8, kind=None, fpf=None, limit=6000):
    """A well-formed function of random kind, and the version it is for."""
    version = version or rng.choice([80, 81])
    dia = dialect(version, fpf=fpf)
    for _ in range(30):
        what = kind or rng.choice(["soup", "program", "program"])
        if what == "soup":
            fn = Soup(rng, version, dia, rng.choice([3, 10, 20]), loops=False, integral=bool(integral)).build()
        else:
            fn = luac.random_function(rng, focus or rng.choice(list(luac.Random.WEIGHTS)), version, size, fpf,
                                      items=rng.choice([None, 0, 3, 5]))
        if rng.random() < 0.25:
            fn = strip(fn)
        if integral:
            fn = whole_numbers(fn)
        if len(chunk(fn, version, [0, 1, 4, 4, 4, 8, integral], dia)) <= limit:
            return fn, version
    return function(code=[("RETURN", 0, 1, 0)]), version


def whole_numbers(fn):
    """The same function with numbers an integral format can hold."""
    consts = [int(c) if isinstance(c, float) else c for c in fn["consts"]]
    return dict(fn, consts=consts, subs=[whole_numbers(s) for s in fn["subs"]])


def plain_booleans(fn):
    """The same function without booleans that are written as another byte than 0 or 1: those change unless the input is passed through."""
    return dict(fn, consts=[True if isinstance(c, Raw) and c.kind == "byte" else c for c in fn["consts"]],
                subs=[plain_booleans(s) for s in fn["subs"]])


def halves(fn, value):
    return dict(fn, consts=[value if isinstance(c, float) and not float(c).is_integer() else c for c in fn["consts"]],
                subs=[halves(s, value) for s in fn["subs"]])


#: strings that are nearly those a translation looks for
LOOKALIKES = [b"nextItem", b"types", b"tables", b"nex", b"typ", b"tabl", b"", b"next\0", b"type\0x", b"table\0", b"Next", b"ntable", b"TYPE",
              b"__%lunify%__temp0_0", b"__%lunify%__temp", b"arg"]


def disguise(fn, rng):
    """The same function with other names: strings become lookalikes, each the same one everywhere."""
    names = set()

    def collect(f):
        names.update(c for c in f["consts"] if isinstance(c, (str, bytes)) and c not in ("type", "next", "table", "arg", "n"))
        for s in f["subs"]:
            collect(s)
    collect(fn)
    fresh = [n for n in LOOKALIKES if n not in names]
    chosen = rng.sample(sorted(names), min(len(names), rng.randint(1, 5)))
    mapping = dict(zip(chosen, rng.sample(fresh, len(chosen))))

    def change(f):
        return dict(f, consts=[mapping.get(c, c) if isinstance(c, (str, bytes)) else c for c in f["consts"]], subs=[change(s) for s in f["subs"]])
    return change(fn)


def ballast(fn, rng):
    """The same function with constants that nothing uses."""
    extra = [None, True, False, 0.0, 1.0, -1.0, "type", "next", "table", "arg", b"", b"nil", b"false"]
    more = rng.sample(extra, rng.randint(1, 5))
    if rng.random() < 0.15:
        more = [b"unused%d" % i for i in range(rng.choice([100, 255, 256, 300]))] + more
    return dict(fn, consts=list(fn["consts"]) + more, subs=[ballast(s, rng) for s in fn["subs"]])


def scatter(fn, rng):
    """The same function with lines of their own for all instructions."""
    low = rng.choice((1, 1, 1, 250, 65500, 2 ** 24 - 9))
    lines = rng.sample(range(low, low + 10 * len(fn["code"]) + 10), len(fn["code"])) if fn["lines"] else []
    return dict(fn, lines=sorted(lines) if rng.random() < 0.5 else lines, subs=[scatter(s, rng) for s in fn["subs"]])


def varied(fn, rng, rule):
    """The same function with something that does not matter to what it does."""
    if rng.random() < 0.2:
        fn = disguise(fn, rng)
    if rng.random() < 0.25:
        fn = ballast(fn, rng)
    if rule == "C18" and rng.random() < 0.8:
        fn = scatter(fn, rng)
    return fn


def settings_for(version, dia=None, output=None):
    s = default_settings(output=output)
    if dia:
        s[0 if version == 80 else 1] = dia
    return s


# ---------------------------------------------------------------------------------------------------------------- C01

def c01(rng, scale):
    """Mutations of well-formed chunks, under ordinary and extreme settings."""
    bases = [(name, data) for name, data in fixtures().items()]
    for i in range(20):
        fn, version = source(rng, size=5, limit=900)
        bases.append((f"s{i}", chunk(fn, version, DEFAULT)))
    for i in range(12):
        version = 80 + i % 2
        fn = Soup(rng, version, dialect(version), 12, loops=True).build()
        bases.append((f"l{i}", chunk(fn, version, DEFAULT)))
    interesting = [0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 50, 63, 64, 80, 81, 127, 128, 250, 251, 254, 255]
    cases = []

    def extreme_settings():
        pick = lambda version: dialect(version, limit=rng.choice([250, 250, 250, 2, 100, 200, 255, 256, 1000, 65536]),
                                       fpf=rng.choice([None, None, 1, 2, 3, 7, 31, 32, 33, 50, 51, 255, 511, 512, 1000, 1 << 30]),
                                       layout=None if rng.random() < 0.6 else random_layout(rng, 64, rng.random() < 0.5))
        return [pick(80), pick(81), pick(81)]

    for n in range(int(6000 * scale)):
        name, data = rng.choice(bases)
        data = bytearray(data)
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 8])):
            at = rng.randrange(len(data))
            kind = rng.random()
            if kind < 0.5:
                data[at] = rng.choice(interesting)
            elif kind < 0.7:
                data[at] ^= 1 << rng.randrange(8)
            elif kind < 0.8:
                del data[at:at + rng.choice([1, 1, 2, 4, 20])]
            elif kind < 0.9:
                data[at:at + 4] = struct.pack("<i", rng.choice([-1, 0, 1, 2 ** 31 - 1, -2 ** 31, 65535, 65536, 255]))
            elif kind < 0.95:
                data[at:at] = bytes(rng.choice([data[max(0, at - 4):at], b"\xff" * 8, b"\0" * 4]))
            else:
                data = data[:at]
            if not data:
                break
        cases.append(case(f"m{n}-{name}", "C01", random_format(rng), default_settings() if rng.random() < 0.5 else extreme_settings(),
                          data))
    for n in range(int(800 * scale)):
        # valid code in unusual settings: every operand value can meet every setting
        version = rng.choice([80, 81])
        settings = extreme_settings()
        dia = settings[version - 80]
        try:
            fn = Soup(rng, version, dia, 15, loops=True, big=rng.random() < 0.2).build()
            data = chunk(fn, version, [0, 1, 4, 4, 8, 8, 0], dia)
        except (Unencodable, IndexError, ValueError):
            continue
        cases.append(case(f"x{n}", "C01", random_format(rng), settings, data))
    # deep nesting
    for depth in (50, 199, 200, 201, 1000, 20000, 200000):
        for version in (80, 81):
            cases.append(case(f"deep{depth}-{version}", "C01", DEFAULT, default_settings(), nested_bytes(version, depth)))
    # wide code: quadratic or worse work shows
    for version in (80, 81):
        n = 6000
        code = [("JMP", 0, -(i % 3000)) if i % 2 else ("JMP", 0, 2000) for i in range(n)] + [("RETURN", 0, 1, 0)]
        s = default_settings(output=dialect(81, fpf=20))
        cases.append(case(f"jumps-{version}", "C01", DEFAULT, s, chunk(function(code=code), version, DEFAULT)))
    code = [("FORLOOP", 0, -(i % 50) - 1) for i in range(3000)] + [("RETURN", 0, 1, 0)]
    cases.append(case("loops-80", "C01", DEFAULT, default_settings(), chunk(function(code=code, stack=4), 80, DEFAULT)))
    # the biggest jump and page operands
    for x in (-131071, 131072, -131070, 65535):
        for op in ("JMP", "FORLOOP", "TFORPREP"):
            cases.append(case(f"far-{op}{x}", "C01", DEFAULT, default_settings(),
                              chunk(function(code=[("NEWTABLE", 0, 0, 0), (op, 0, x), ("RETURN", 0, 1, 0)], stack=8), 80, DEFAULT)))
    for x in (0, 31, 32, 33, 262143):
        for op in ("SETLIST", "SETLISTO"):
            for fpf in (1, 50):
                cases.append(case(f"page-{op}{x}-{fpf}", "C01", DEFAULT, default_settings(output=dialect(81, fpf=fpf)),
                                  chunk(function(code=[("NEWTABLE", 0, 0, 0), (op, 0, x), ("RETURN", 0, 1, 0)], stack=40), 80, DEFAULT)))
    return cases + wide_operands(rng, "C01")


def nested_bytes(version, depth):
    """`depth` functions inside each other, each at the start of the body of the one around it."""
    w = encode.Writer(DEFAULT, version, dialect(version))
    w.header()
    ret = ("RETURN", 0, 1, 0)
    if version == 81:
        def opening(more):
            w.out += b"\0" * 8 + b"\0" * 8 + bytes([0, 0, 0, 2])
            w.integer(1)
            w.instruction(ret)
            w.integer(0)
            w.integer(1 if more else 0)
        closing = b"\0" * 12
    else:
        def opening(more):
            w.out += b"\0" * 8 + b"\0" * 4 + bytes([0, 0, 0, 2]) + b"\0" * 12 + b"\0" * 4
            w.integer(1 if more else 0)
        inner = encode.Writer(DEFAULT, version, dialect(version))
        inner.integer(1)
        inner.instruction(ret)
        closing = bytes(inner.out)
    for i in range(depth):
        opening(i + 1 < depth)
    return bytes(w.out) + closing * depth


# ---------------------------------------------------------------------------------------------------------------- C02

def c02(rng, scale):
    cases = []
    signatures = [list(b"\x1bLua"), list(b"\x1bLul"), list(b"LuaQ!"), list("é".encode()), [33], [],
                  list(b"a signature of many bytes"), list(b"\x1bLua" * 60)]
    for n, fmt in enumerate(all_formats((0, 7))):
        for version in (80, 81):
            integral = 1 if fmt[6] else 0
            fn, version = source(rng, version, integral, size=5, limit=800)
            inform = random_format(rng, integral)
            out = dialect(81, sig=rng.choice(signatures))
            s = settings_for(version, None, out)
            if fmt[4] == 8 and rng.random() < 0.3:
                out["layout"] = random_layout(rng, 64)
            cases.append(case(f"f{n}-{version}", "C02", fmt, s, chunk(fn, version, inform)))
    for n in range(int(60 * scale)):
        fn, version = source(rng, None, 1, size=5, limit=1500)
        out = dialect(81, sig=rng.choice(signatures), fpf=rng.choice([50, 3]))
        cases.append(case(f"r{n}", "C02", random_format(rng), settings_for(version, None, out), chunk(fn, version, random_format(rng, 1))))
    return cases


# ---------------------------------------------------------------------------------------------------------------- C03

def c03(rng, scale):
    """Everything the caller can differ in, one field at a time and together."""
    cases = []
    rest = [("boolean", function(code=[("NEWTABLE", 0, 3, 3), ("LOADK", 1, 0), ("SETTABLE", 0, ("k", 0), 1), ("RETURN", 0, 1, 0)],
                                 consts=[b"x", Raw(b"\x01\x02", "byte")])),
            ("plain", function(code=[("GETGLOBAL", 0, 0), ("CALL", 0, 1, 1), ("RETURN", 0, 1, 0)], consts=[b"f", 9, 1.0 * 2 ** 40]))]
    for i in range(int(6 * scale)):
        rest.append((f"s{i}", whole_numbers(source(rng, 81, 0, size=4, limit=700)[0])))
    layout = [[2, 8], [1, 6], [3, 9], [4, 9]]
    for name, fn in rest:
        base = [0, 1, 4, 8, 4, 8, 0]
        for wide in (0, 1):
            fmt = [3, 0, 8, 4, 8, 8, 0] if wide else base
            outs = [fmt] + [[*fmt[:i], v, *fmt[i + 1:]] for i, v in
                            ((0, fmt[0] ^ 1), (1, 1 - fmt[1]), (2, 12 - fmt[2]), (3, 12 - fmt[3]), (4, 12 - fmt[4]), (5, 12 - fmt[5]),
                             (6, 1 - fmt[6]))]
            for k, out in enumerate(outs):
                cases.append(case(f"{name}-{wide}-fmt{k}", "C03", out, default_settings(), chunk(fn, 81, fmt)))
            variants = {
                "limit": (dialect(81), dialect(81, limit=200)), "limit2": (dialect(81, limit=255), dialect(81)),
                "fpf": (dialect(81), dialect(81, fpf=20)), "fpf2": (dialect(81, fpf=20), dialect(81)),
                "sig": (dialect(81), dialect(81, sig=list(b"\x1bLub"))), "sig2": (dialect(81, sig=list(b"\x1bLub")), dialect(81)),
                "layout": (dialect(81), dialect(81, layout=layout)), "layout2": (dialect(81, layout=layout), dialect(81)),
                "same": (dialect(81, layout=layout, fpf=20, limit=99), dialect(81, layout=layout, fpf=20, limit=99)),
            }
            for key, (mine, out) in variants.items():
                cases.append(case(f"{name}-{wide}-{key}", "C03", fmt, [dialect(80), mine, out], chunk(fn, 81, fmt, mine)))
            # the signature of the Lua 5.0 settings in front of Lua 5.1 code
            other = dialect(81, sig=list(b"\x1bLuX"))
            cases.append(case(f"{name}-{wide}-sig50", "C03", fmt, [dialect(80, sig=list(b"\x1bLuX")), dialect(81), dialect(81)],
                              chunk(fn, 81, fmt, other)))
            # Lua 5.0 settings do not matter to Lua 5.1 code
            cases.append(case(f"{name}-{wide}-lua50", "C03", fmt, [dialect(80, limit=99, fpf=5), dialect(81), dialect(81)],
                              chunk(fn, 81, fmt)))
    for i in range(int(25 * scale)):
        fn, version = source(rng, 80, 0, size=4, limit=700)
        cases.append(case(f"v80-{i}", "C03", [0, 1, 4, 8, 4, 8, 0], default_settings(), chunk(fn, 80, [0, 1, 4, 8, 4, 8, 0])))
    return cases


# ---------------------------------------------------------------------------------------------------------------- C04

def c04(rng, scale):
    cases = []
    for n in range(int(110 * scale)):
        fn, version = source(rng, size=8, limit=3000)
        cases.append(case(f"w{n}", "C04", random_format(rng, 0), settings_for(version, None, dialect(81, fpf=rng.choice([50, 50, 8, 33]))),
                          chunk(fn, version, random_format(rng, 0))))
    for n in range(int(60 * scale)):
        version = rng.choice([80, 81])
        dia = dialect(version)
        fn = Soup(rng, version, dia, 20, loops=False, big=True).build()
        cases.append(case(f"b{n}", "C04", random_format(rng, 0), settings_for(version), chunk(fn, version, random_format(rng, 0))))
    # stacks up to the limit
    for version in (80, 81):
        for limit in (250, 100):
            for stack in (2, limit - 1, limit, limit + 1, 255):
                top = min(stack, 255) - 1
                fn = function(code=[("LOADNIL", 0, top, 0), ("MOVE", top, 0, 0), ("RETURN", 0, 1, 0)], stack=min(stack, 255))
                try:
                    data = chunk(fn, version, DEFAULT, dialect(version, limit=255))
                except Unencodable:
                    continue
                s = [dialect(80, limit=255), dialect(81, limit=255), dialect(81, limit=limit)]
                cases.append(case(f"stack{stack}-{limit}-{version}", "C04", [0, 0, 4, 4, 4, 8, 0], s, data))
    # constants up to and past what an operand can name
    for version in (80, 81):
        for k in (0, 1, 254, 255, 256, 257, 260, 261):
            fn = function(code=[("ADD", 0, ("k", k), 0), ("SETTABLE", 0, 1, ("k", k)), ("GETGLOBAL", 0, k), ("LOADK", 1, k),
                                ("RETURN", 0, 1, 0)], consts=[b"s%d" % i for i in range(k + 1)])
            try:
                data = chunk(fn, version, DEFAULT)
            except Unencodable:
                continue
            cases.append(case(f"constant{k}-{version}", "C04", [0, 0, 4, 4, 4, 8, 0], default_settings(), data))
    for n, (version, fmt) in enumerate(itertools.product((80, 81), all_formats())):
        fn = function(code=[("LOADK", 0, 1), ("RETURN", 0, 1, 0)], consts=[b"a\xff", 3, None, True],
                      subs=[function(code=[("RETURN", 0, 1, 0)], line=5, last=9)])
        cases.append(case(f"fmt{n}", "C04", fmt, default_settings(), chunk(fn, version, fmt)))
    # layouts that fit an instruction or do not, whatever the width of the other fields
    for n, (iw, sw, cw, nw) in enumerate(itertools.product((4, 8), (4, 8), (4, 8), (4, 8))):
        for total in (31, 32, 33, 64):
            version = rng.choice((80, 81))
            data = chunk(function(code=[("LOADK", 0, 0), ("RETURN", 0, 1, 0)], consts=[b"x"]), version, random_format(rng, 0))
            cases.append(case(f"words{n}-{total}", "C04", [0, rng.randrange(2), iw, sw, cw, nw, 0],
                              settings_for(version, None, dialect(81, layout=layout_of(rng, total))), data))
    cases += alike(rng, "C04")
    cases += large(rng, "C04", ("consts", "strings", "code", "subs", "locals"), (255, 256, 257, 300))
    cases += large(rng, "C04", ("consts",), (65537 + rng.randrange(9),))
    if scale > 10:
        cases += large(rng, "C04", ("code", "locals"), (65537 + rng.randrange(9),)) + large(rng, "C04", ("subs", "strings"), (1000, 5000))
    return cases


# ---------------------------------------------------------------------------------------------------------------- C05

def c05(rng, scale):
    cases = []
    for n in range(int(120 * scale)):
        integral = rng.randrange(2)
        dia = dialect(81, fpf=rng.choice([50, 7]), layout=random_layout(rng, 32) if rng.random() < 0.4 else None)
        fn = Soup(rng, 81, dia, rng.choice([5, 20, 40]), big=rng.random() < 0.15, integral=bool(integral)).build()
        out = dialect(81, fpf=dia["fpf"], layout=random_layout(rng, 32) if rng.random() < 0.5 else dia["layout"],
                      limit=rng.choice([250, 255]))
        try:
            data = chunk(fn, 81, random_format(rng, integral), dia)
        except Unencodable:
            continue
        cases.append(case(f"s{n}", "C05", random_format(rng, integral), [dialect(80), dia, out], data))
    for n in range(int(60 * scale)):
        fn, _ = source(rng, 81, 0, kind="program", limit=3000)
        cases.append(case(f"p{n}", "C05", random_format(rng, 0), default_settings(), chunk(fn, 81, random_format(rng, 0))))
    for flags in range(8):
        fn = function(code=[("MOVE", 1, 0, 0), ("RETURN", 0, 1, 0)], stack=3, vararg=flags, params=0,
                      subs=[function(code=[("RETURN", 0, 1, 0)], stack=3, vararg=7 - flags, params=1)])
        for out in (None, dialect(81, fpf=7), dialect(81, layout=random_layout(rng, 32))):
            cases.append(case(f"flags{flags}-{len(cases)}", "C05", random_format(rng, 0), default_settings(output=out), chunk(fn, 81, DEFAULT)))
    # data words of SETLIST
    for n, page in enumerate((512, 513, 600, 65536, 2 ** 20 + 34, 2 ** 31 - 1, 34, 0x01020304)):
        fn = function(code=[("NEWTABLE", 0, 0, 0), ("LOADK", 1, 0), ("SETLIST", 0, 1, 0), ("RAW", page), ("RETURN", 0, 1, 0)],
                      consts=[b"x"], stack=3)
        for fmt in ([0, 0, 4, 4, 4, 8, 0], [0, 1, 4, 8, 8, 8, 0]):
            cases.append(case(f"page{n}-{fmt[4]}", "C05", fmt, default_settings(), chunk(fn, 81, DEFAULT)))
            out = dialect(81, layout=random_layout(rng, 32))
            cases.append(case(f"pagel{n}-{fmt[4]}", "C05", fmt, default_settings(output=out), chunk(fn, 81, DEFAULT)))
    return cases + large(rng, "C05", ("consts", "strings", "code", "subs", "locals"), (256, 300), (81,)) + large(rng, "C05", ("consts",), (65540,), (81,))


# ---------------------------------------------------------------------------------------------------------------- C06

def c06(rng, scale):
    cases = []
    every = bytes(range(256))
    texts = [None, b"", b"\0", b"a", b"\0a\0", b"\xff\xfe", "äöü€𝄞".encode(), b"\x80", b"\xc3\x28", every, bytes(reversed(every)),
             b"\r\n\t\x1b", b"x" * 255, b"y" * 256, b"z" * 257]
    for n, fmt in enumerate(all_formats()):
        if fmt[6]:
            continue
        for version in (80, 81):
            chosen = [texts[(n + i * 3) % len(texts)] for i in range(3)] + [bytes([(n * 7 + version) % 256])]
            fn = named(chosen, rng)
            cases.append(case(f"f{n}-{version}", "C06", fmt, default_settings(), chunk(fn, version, random_format(rng, 0))))
    for i, text in enumerate(texts):
        for version in (80, 81):
            cases.append(case(f"t{i}-{version}", "C06", [0, 0, 4, 4, 4, 8, 0], default_settings(),
                              chunk(named([text, text], rng), version, DEFAULT)))
    for i in range(int(50 * scale)):
        chosen = [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 7, 40]))) for _ in range(5)]
        version = rng.choice([80, 81])
        cases.append(case(f"r{i}", "C06", random_format(rng, 0), default_settings(), chunk(named(chosen, rng), version, random_format(rng, 0))))
    # text without a final zero, and a long one
    odd = [Raw(b"ab", "str"), Raw(b"\0\0", "str"), Raw(every, "str")]
    for i, text in enumerate(odd):
        cases.append(case(f"raw{i}", "C06", [0, 0, 4, 4, 4, 8, 0], default_settings(), chunk(named([text, text], rng), 81, DEFAULT)))
    for version in (80, 81):
        long = bytes((i * i + 7) % 256 for i in range(int(20000 * min(scale, 4))))
        cases.append(case(f"long-{version}", "C06", [0, 0, 4, 4, 4, 8, 0], default_settings(), chunk(named([long, b"q"], rng), version, DEFAULT)))
    return cases


def named(texts, rng):
    n = len(texts)
    inner = function(code=[("RETURN", 0, 1, 0)], source=texts[0], consts=list(reversed(texts)), nups=2,
                     upnames=[texts[-1], texts[0]], locals=[(texts[0], 0, 1)])
    return function(code=[("CLOSURE", 0, 0), ("MOVE", 0, 0, 0), ("MOVE", 0, 1, 0), ("LOADK", 1, n - 1), ("RETURN", 0, 1, 0)],
                    consts=list(texts), subs=[inner], source=texts[n // 2], locals=[(t, 0, 4) for t in texts], stack=3)


# ---------------------------------------------------------------------------------------------------------------- C07

def c07(rng, scale):
    doubles = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1 / 3, 1e300, -1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
               float("inf"), float("-inf"), 16777216.0, 16777217.0, 16777218.0, 16777219.0, 3.4028234663852886e38, 3.4028235677973366e38,
               3.4028235677973362e38, 1.1754943508222875e-38, 1.401298464324817e-45, 7.006492321624085e-46, 7.006492321624086e-46,
               2.0 ** 31, 2.0 ** 31 - 1, -2.0 ** 31, -2.0 ** 31 - 1, 2.0 ** 32, 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 62, 2.0 ** 63, -2.0 ** 63,
               2.0 ** 63 - 1024, -2.0 ** 63 - 2048, 1e15, 123456789.0, 1.5, -2.5, 3.0000000000000004, 1.0000000596046448,
               1.00000005960464477539, 1.0000001788139343, 31415926.535897933, 31415926.0, 2.0 ** 31 - 0.5, 0.49999999999999994]
    singles = [0.0, -0.0, 1.0, 0.5, 2.0 ** 31, 2.0 ** 63, 16777216.0, 1.401298464324817e-45, 3.4028234663852886e38, -1.5, float("inf")]
    integers = [0, 1, -1, 255, 256, 2 ** 24, 2 ** 24 + 1, 2 ** 31 - 1, -2 ** 31, 2 ** 31, -2 ** 31 - 1, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1,
                2 ** 53 + 2, 2 ** 54 + 2, 2 ** 62 + 1, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, 2 ** 63 - 1024, 2 ** 63 - 512, 123456789012345]
    kinds = [(4, 0), (8, 0), (4, 1), (8, 1)]
    cases = []

    def sample(width, integral):
        out = []
        if integral:
            edge = integers + [rng.getrandbits(63) * rng.choice([1, -1]) for _ in range(int(6 * scale))]
            edge += [rng.getrandbits(rng.randint(1, 62)) for _ in range(int(6 * scale))]
            top = 1 << (8 * width - 1)
            for v in edge:
                if -top <= v < top:
                    out.append(Raw(v.to_bytes(width, "little", signed=True)))
        elif width == 8:
            edge = list(doubles)
            edge += [struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0] for _ in range(int(8 * scale))]
            edge += [rng.uniform(-1e6, 1e6) for _ in range(int(4 * scale))] + [float(rng.getrandbits(rng.randint(1, 63))) for _ in range(int(6 * scale))]
            edge += [struct.unpack("<d", struct.pack("<Q", (rng.getrandbits(34) << 30 & ~(1 << 63)) | rng.choice([1 << 28, 1 << 28 | 1, (1 << 28) - 1])))[0]
                     for _ in range(int(6 * scale))]
            out = [Raw(struct.pack("<d", v)) for v in edge]
            out.append(Raw(struct.pack("<Q", 0x7ff8000000000000)))
        else:
            out = [Raw(struct.pack("<f", v)) for v in singles]
            out += [Raw(struct.pack("<I", rng.getrandbits(32))) for _ in range(int(14 * scale))]
            out.append(Raw(struct.pack("<I", 0x7fc00000)))
        return out

    for (sw, sg), (dw, dg) in itertools.product(kinds, kinds):
        for version in (80, 81):
            values = sample(sw, sg)
            for little in (0, 1):
                inform = [0, little, 4, 8, 4, sw, sg]
                out = [0, 1 - little if rng.random() < 0.7 else little, rng.choice((4, 8)), 8, 4, dw, dg]
                safe = []
                for i, v in enumerate(values):
                    if (i + little) % 2 and version == 80:
                        continue
                    fn = function(code=[("LOADK", 0, 0), ("RETURN", 0, 1, 0)], consts=[v])
                    cases.append(case(f"n{sw}{sg}{dw}{dg}-{version}-{little}-{i}", "C07", out, default_settings(), chunk(fn, version, inform)))
    return cases


# ---------------------------------------------------------------------------------------------------------------- C08

def alike(rng, rule, versions=(80, 81)):
    """Signatures of which one is the beginning of the other."""
    cases = []
    for one, two in itertools.permutations((b"\x1bLua", b"\x1bLuaX", b"\x1bL", b"\x1bLuaXY"), 2):
        for sig, byte in itertools.product((one, two), versions):
            version = byte if byte in (80, 81) else rng.choice((80, 81))
            dia = [dialect(80, sig=one), dialect(81, sig=two)]
            data = bytearray(chunk(function(code=[("RETURN", 0, 1, 0)]), version, DEFAULT, dialect(version, sig=sig)))
            data[len(sig)] = byte
            cases.append(case(f"alike-{one.hex()}-{two.hex()}-{sig.hex()}-{byte}", rule, [0, 0, 4, 4, 4, 8, 0],
                              dia + [dialect(81, sig=rng.choice((one, two)))], data))
    return cases


def large(rng, rule, kinds, sizes, versions=(80, 81)):
    """Functions with long lists, whose last entries matter."""
    cases = []
    ret = [("RETURN", 0, 1, 0)]
    for kind, n, version in itertools.product(kinds, sizes, versions):
        lines = None
        if kind == "consts":
            parts = dict(code=[("LOADK", 0, n - 1), ("GETGLOBAL", 1, n - 2)] + ret, consts=[rng.choice((None, True, 5)) for _ in range(n - 2)] + [b"x", b"y"])
        elif kind == "strings":
            parts = dict(code=[("GETGLOBAL", 0, n - 1)] + ret, consts=[b"x%d" % i for i in range(n)])
        elif kind == "code":
            parts = dict(code=[("MOVE", 0, 1, 0)] * (n - 2) + [("JMP", 0, 1 - n)] + ret)
            lines = [1 + i // 7 for i in range(n)]
        elif kind == "subs":
            subs = [function(code=ret, line=i, last=i + 1) for i in range(n)]
            parts = dict(code=[("CLOSURE", 0, n - 1)] + ret, subs=subs)
        elif kind == "locals":
            parts = dict(code=ret, locals=[(b"v%d" % (i % 9), i % 2, 1) for i in range(n - 1)] + [(b"w", 0, 1)])
        else:
            raise ValueError(kind)
        fn = function(**parts)
        if lines:
            fn["lines"] = lines
        if rng.random() < 0.3:
            fn = function(code=[("CLOSURE", 0, 0)] + ret, subs=[fn])
        fmt = [0, rng.randrange(2), 4, rng.choice((4, 8)), 4, 8, 0]
        # of the other byte order, so that nothing is passed through
        cases.append(case(f"large-{kind}-{n}-{version}", rule, fmt, default_settings(output=rng.choice([None, dialect(81, fpf=7)])),
                          chunk(fn, version, [0, 1 - fmt[1], rng.choice((4, 8)) if n < 1000 else 4, 4, 4, 8, 0])))
    return cases


def narrow_words(rng, rule, count):
    """Layouts of about as many bits as an instruction of the output has."""
    cases = []
    for total in (29, 30, 31, 32, 33, 34, 35, 36, 40, 48, 62, 63, 64):
        for n in range(count):
            version = rng.choice([80, 81])
            layout = layout_of(rng, total)
            dia = dialect(version, layout=layout_of(rng, rng.choice([total, 32])))
            out = dialect(81, layout=layout)
            fn = edge_function(rng, version, dia, out, rng.choice([0, 0, 1, 2]))
            try:
                data = chunk(fn, version, [0, rng.randrange(2), 4, 4, 8, 8, 0], dia)
            except Unencodable:
                continue
            for width in (4, 8):
                cases.append(case(f"word{total}-{n}-{width}", rule, [0, rng.randrange(2), 4, 4, width, 8, 0], settings_for(version, dia, out), data))
    return cases


def c08(rng, scale):
    cases = []
    for n in range(int(170 * scale)):
        version = 81 if n % 3 else 80
        wide = rng.random() < 0.25
        mine = random_layout(rng, 64 if wide else 32, wide) if rng.random() < 0.8 else None
        yours = random_layout(rng, 64 if wide else 32, wide) if rng.random() < 0.8 else None
        dia = dialect(version, layout=mine, limit=rng.choice([250, 250, 200, 120]))
        out = dialect(81, layout=yours, fpf=50)
        for _ in range(3):
            fn = edge_function(rng, version, dia, out, rng.choice([1, 1, 2, 4]))
            try:
                data = chunk(fn, version, [0, rng.randrange(2), 4, 4, 8 if wide else rng.choice((4, 8)), 8, 0], dia)
            except Unencodable:
                continue
            fmt = [0, rng.randrange(2), 4, 4, 8 if wide and rng.random() < 0.9 else rng.choice((4, 8)), 8, 0]
            cases.append(case(f"e{n}-{_}", "C08", fmt, settings_for(version, dia, out), data))
    for n in range(int(50 * scale)):
        version = rng.choice([80, 81])
        dia = dialect(version, layout=random_layout(rng, 32), limit=rng.choice([250, 120]))
        out = dialect(81, layout=random_layout(rng, 32))
        try:
            fn = Soup(rng, version, dia, 25, loops=False, big=rng.random() < 0.4).build()
            data = chunk(fn, version, random_format(rng, 0), dia)
        except (Unencodable, IndexError, ValueError):
            continue
        cases.append(case(f"s{n}", "C08", random_format(rng, 0), settings_for(version, dia, out), data))
    cases += narrow_words(rng, "C08", int(2 * scale))
    # interpreters built with fewer registers, or more
    for n in range(int(25 * scale)):
        version = 80 if n % 4 else 81
        dia = dialect(version, layout=rng.choice((None, random_layout(rng, 32), random_layout(rng, 32))),
                      limit=rng.choice((1, 2, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 192, 251, 255, 256, 300)))
        out = dialect(81, layout=rng.choice((None, random_layout(rng, 32))), limit=rng.choice((250, 255)))
        try:
            fn = edge_function(rng, version, dia, out, rng.choice([1, 1, 2, 4]))
            data = chunk(fn, version, [0, rng.randrange(2), 4, 4, 4, 8, 0], dia)
        except (Unencodable, IndexError, ValueError):
            continue
        cases.append(case(f"limit{n}", "C08", [0, rng.randrange(2), 4, 4, 4, 8, 0], settings_for(version, dia, out), data))
    # every opcode with each operand at each end of its field, between the default layouts and a permuted one
    permuted = [[4, 9], [3, 9], [2, 8], [1, 6]]
    for version in (80, 81):
        for op in encode.OPS50 if version == 80 else encode.OPS51:
            if version == 80 and op in ("FORLOOP", "TFORLOOP", "TFORPREP", "SETLIST", "SETLISTO"):
                continue
            for variant in range(3):
                if op in encode.WIDE[version]:
                    ins = (op, [0, 255, 129][variant], [0, 2 ** 18 - 1, 0x15555][variant])
                elif op in encode.SIGNED:
                    ins = (op, [0, 255, 129][variant], [2 ** 17, -(2 ** 17 - 1), 77][variant])
                else:
                    b, c = [(1, 2), (249, 249), (128, 127)][variant]
                    unused = {"MOVE": "c", "LOADNIL": "c", "GETUPVAL": "c", "SETUPVAL": "c", "UNM": "c", "NOT": "c", "LEN": "c",
                              "RETURN": "c", "VARARG": "c", "TFORLOOP": "b", "CLOSE": "bc", "NEWTABLE": "bc"}.get(op, "")
                    ins = (op, [0, 255, 129][variant], 0 if "b" in unused else b, 0 if "c" in unused else c)
                for layout in (None, permuted):
                    fn = function(code=[ins, ("RETURN", 0, 1, 0)], consts=[b"x"])
                    out = dialect(81, layout=layout)
                    cases.append(case(f"op{op}-{version}-{variant}-{1 if layout else 0}", "C08", [0, 0, 4, 4, 4, 8, 0],
                                      settings_for(version, None, out), chunk(fn, version, DEFAULT)))
    return cases


# ---------------------------------------------------------------------------------------------------------------- C09

def c09(rng, scale):
    cases = []
    simple = function(code=[("LOADK", 0, 0), ("RETURN", 0, 1, 0)], consts=[b"x", 1, None, True],
                      subs=[function(code=[("RETURN", 0, 1, 0)], consts=[2])])
    for version in (80, 81):
        good = chunk(simple, version, DEFAULT)
        header = 4 + 1 + (1 if version == 81 else 0) + 4 + (4 if version == 80 else 0) + 1 + (1 if version == 81 else 8)
        values = list(range(256)) if scale >= 2 else sorted(set(list(range(0, 12)) + [15, 16, 31, 32, 63, 64, 79, 80, 81, 82, 127, 128, 200, 255]))
        for at in range(header):
            for v in values:
                data = bytearray(good)
                if data[at] == v:
                    continue
                data[at] = v
                cases.append(case(f"h{version}-{at}-{v}", "C09", [0, 0, 4, 4, 4, 8, 0], default_settings(), data))
        # two wrong fields: the first in file order is reported
        for a, b in itertools.combinations(range(header - (8 if version == 80 else 0)), 2):
            data = bytearray(good)
            data[a], data[b] = rng.choice([3, 9, 77, 200]), rng.choice([3, 9, 77, 200])
            cases.append(case(f"hh{version}-{a}-{b}", "C09", [0, 0, 4, 4, 4, 8, 0], default_settings(), data))
        # opcodes
        known = 35 if version == 80 else 38
        for opbits, layout in ((6, None), (8, [[2, 8], [1, 8], [3, 8], [4, 8]]), (7, [[4, 9], [3, 8], [2, 8], [1, 7]])):
            dia = dialect(version, layout=layout)
            for op in sorted({known - 1, known, known + 1, (1 << opbits) - 1, min(200, (1 << opbits) - 1), rng.randrange(known, 1 << opbits)}):
                for place in (0, 1, 2):
                    sub = function(code=[("RETURN", 0, 1, 0)] if place != 2 else [(op, 0, 0, 0), ("RETURN", 0, 1, 0)], consts=[])
                    code = [("MOVE", 0, 1, 0), ("RETURN", 0, 1, 0)]
                    if place < 2:
                        code.insert(place, (op, 1, 0, 0))
                    fn = function(code=code, consts=[b"x"], subs=[sub])
                    cases.append(case(f"op{version}-{opbits}-{op}-{place}", "C09", [0, 0, 4, 4, 4, 8, 0], settings_for(version, dia),
                                      chunk(fn, version, DEFAULT, dia)))
        # constant types
        for t in (range(256) if scale >= 2 else [2, 5, 6, 7, 8, 9, 10, 16, 52, 127, 128, 131, 254, 255]):
            for place in (0, 1, 2):
                consts = [1, b"x", None]
                if t in (0, 1, 3, 4):
                    continue
                consts.insert(place, Raw(bytes([t]), "byte"))
                for where in (0, 1):
                    inner = function(code=[("RETURN", 0, 1, 0)], consts=consts if where else [])
                    fn = function(code=[("RETURN", 0, 1, 0)], consts=[] if where else consts, subs=[inner])
                    cases.append(case(f"ct{version}-{t}-{place}-{where}", "C09", [0, 0, 4, 4, 4, 8, 0], default_settings(),
                                      chunk(fn, version, DEFAULT)))
        # an instruction error before or after a constant error
        fn = function(code=[(63, 0, 0, 0), ("RETURN", 0, 1, 0)], consts=[Raw(b"\x09", "byte")])
        cases.append(case(f"both{version}", "C09", [0, 0, 4, 4, 4, 8, 0], default_settings(), chunk(fn, version, DEFAULT)))
        # the layout of the settings and the sizes in the header of Lua 5.0
        if version == 80:
            for n in range(int(40 * scale)):
                layout = random_layout(rng, 32)
                dia = dialect(80, layout=layout)
                data = bytearray(chunk(simple, 80, DEFAULT, dia))
                s = settings_for(80, dia if rng.random() < 0.5 else None)
                cases.append(case(f"sizes{n}", "C09", [0, 0, 4, 4, 4, 8, 0], s, data))
            for fmt in all_formats():
                cases.append(case("n80-%d%d%d%d%d%d" % tuple(fmt[1:]), "C09", [0, 0, 4, 4, 4, 8, 0], default_settings(),
                                  chunk(simple, 80, fmt)))
        for sig in (b"", b"\x1b", b"\x1bLu", b"\x1bLua", b"\x1bLub", b"\x1cLua", b"Lua\x1b", b"\x1bLuaa", b"#!lua"):
            cases.append(case(f"sig{version}-{sig.hex()}", "C09", DEFAULT, default_settings(), sig + bytes([version]) * 0))
            cases.append(case(f"sigv{version}-{sig.hex()}", "C09", DEFAULT, default_settings(), sig + bytes([version])))
            s = [dialect(80, sig=b"\x1bLx"), dialect(81, sig=b"\x1bLua"), dialect(81)]
            cases.append(case(f"sigs{version}-{sig.hex()}", "C09", DEFAULT, s, sig + good[4:]))
    return cases + alike(rng, "C09", (0, 79, 82, 88, 255))


# ---------------------------------------------------------------------------------------------------------------- C10

def c10(rng, scale):
    cases = []
    bases = []
    for i in range(int(4 * scale) + 2):
        version = 80 + i % 2
        for _ in range(50):
            fn, _v = source(rng, version, 0, size=2, limit=260)
            fmt = random_format(rng, 0)
            data = chunk(fn, version, fmt)
            if len(data) > 120:
                break
        bases.append((f"b{i}", version, data))
    full = function(code=[("LOADK", 0, 0), ("RETURN", 0, 1, 0)], consts=[b"text", 1, None, True, 2.5], nups=1, upnames=[b"u"],
                    locals=[(b"l", 0, 1)], subs=[function(code=[("RETURN", 0, 1, 0)], consts=[b"z"], source=None)])
    for version in (80, 81):
        for fmt in ([0, 1, 4, 8, 4, 8, 0], [0, 0, 8, 4, 8, 4, 0]):
            bases.append((f"full{version}{fmt[2]}", version, chunk(full, version, fmt)))
    out = [9, 1, 8, 8, 8, 8, 0]
    for name, version, data in bases:
        for n in range(len(data)):
            cases.append(case(f"{name}-p{n}", "C10", out, default_settings(), data[:n]))
        for extra in (b"\0", b"\x1bLua", b"\xff" * 3, data):
            cases.append(case(f"{name}-x{len(extra)}", "C10", out, default_settings(), data + extra))
        cases.append(case(f"{name}-whole", "C10", out, default_settings(), data))
        # counts that claim more
        for at in range(10, len(data) - 3):
            if rng.random() < 0.25 * min(scale, 3):
                for v in rng.sample([b"\xff\xff\xff\xff", b"\xff\xff\xff\x7f", b"\0\0\0\x80", b"\x10\0\0\0", b"\0\0\0\x10", b"\0\x01\0\0"], 2):
                    cases.append(case(f"{name}-c{at}-{v.hex()}", "C10", out, default_settings(), data[:at] + v + data[at + 4:]))
    for version in (80, 81):
        for iw, sw in itertools.product((4, 8), (4, 8)):
            for key in ("ncode", "nconsts"):
                for extra in (1, 2, 100, 2 ** 31 - 5, -1 - 2):
                    fn = dict(full, **{key: (2 if key == "ncode" else 5) + extra})
                    cases.append(case(f"{key}{version}{iw}{sw}{extra}", "C10", out, default_settings(), chunk(fn, version, [0, 1, iw, sw, 4, 8, 0])))
            for size in (2 ** 31 - 1, -1, 1000, 2 ** 31, 2 ** 63 - 1, -2 ** 63, -2 ** 31):
                w = encode.Writer([0, 1, iw, sw, 4, 8, 0], version, dialect(version))
                w.header()
                w.word(size, sw)
                w.out += b"abc" * 20
                cases.append(case(f"string{version}{iw}{sw}{size}", "C10", out, default_settings(), bytes(w.out)))
    return cases


# ---------------------------------------------------------------------------------------------- C16 C17 C18 C19 C22

def structured(rng, rule, count, focus, version=None, outs=(None,), limit=2500, size=8, stripped=0.25, tag="p"):
    cases = []
    for n in range(count):
        v = version or rng.choice([80, 80, 80, 81])
        fn = luac.random_function(rng, rng.choice(focus), v, size, items=rng.choice([None, 0, 2, 4]))
        if rng.random() < stripped:
            fn = strip(fn)
        fn = varied(fn, rng, rule)
        data = chunk(fn, v, random_format(rng, 0))
        if len(data) > limit:
            continue
        cases.append(case(f"{tag}{n}", rule, random_format(rng, 0), settings_for(v, None, rng.choice(outs) or dialect(81)), data))
    return cases


def rich(rng, rule, count, version=None, fpfs=((None, None), (None, 8), (None, 33), (3, 50), (50, 2)), args=(0, 0, 2)):
    """Programs with everything that luac compiles: multiple assignments, methods, recursive functions, endless loops."""
    return programs(rng, rule, count, ["rich"], version, fpfs, args, tag="rich", stripped=0.05)


def high(rng, rule, count, focuses, version=None, fpfs=((None, None),), args=(0,)):
    """Programs whose main chunk has many local variables in front of everything."""
    cases = []
    while len(cases) < count:
        v = version or rng.choice((80, 81))
        sfpf, dfpf = rng.choice(fpfs)
        names = [f"r{i}" for i in range(rng.choice((59, 62, 119, 123, 124, 125, 126, 127, 128, 150, 190, 199, 210, 225)) - rng.randint(0, 2))]
        try:
            body, vararg = luac.Random(rng, rng.choice(focuses), v, rng.choice((3, 5, 8)), sfpf, 3, rng.choice((None, 2, 4, 6))).program()
            fn = luac.compile_program([("local", names, [])] + body, v, vararg, sfpf)
        except luac.TooBig:
            continue
        made = product(f"high{len(names)}-{len(cases)}", rule, fn, v, rng, sfpf, dialect(81, fpf=dfpf), rng.choice(args), limit=9000)
        if made:
            cases.append(made)
    return cases


def limited(rng, rule, count):
    """Programs of a Lua 5.0 that was built with another stack limit, which moves the constants among the operands."""
    def highest(fn):
        return max([fn["stack"]] + [highest(sub) for sub in fn["subs"]])

    cases = []
    while len(cases) < count:
        fn = luac.random_function(rng, "branch", 80, rng.choice((4, 8)), None)
        limit = rng.choice((16, 20, 32, 48, 60, 64, 100, 127, 128, 200, 255, highest(fn) + 1))
        if highest(fn) >= limit:
            continue
        mine = dialect(80, limit=limit)
        try:
            data = chunk(fn, 80, random_format(rng, 0), mine)
        except Unencodable:
            continue
        if len(data) < 4000:
            cases.append(dict(case(f"limit{limit}-{len(cases)}", rule, random_format(rng, 0), settings_for(80, mine, dialect(81)), data), kind="run",
                              version=80, sfpf=mine["fpf"], dfpf=50, args=0, strict=False))
    return cases


def smallest(rng, rule):
    """Functions with as little in them as possible."""
    cases = []
    for version in (80, 81):
        for vararg in (False, True):
            for name, body in (("nothing", []), ("return", [("return", [L("x")])]), ("call", [CALL("f")]), ("nil", [("local", ["x"], [])]),
                               ("loop", [("for", "i", N(1), N(2), None, [])]), ("pairs", [("forin", ["k", "v"], [VALUE("pairs", G("g"))], [])]),
                               ("endless", [("while", VALUE("c"), [])]), ("table", [("local", ["t"], [("table", [("item", N(1))])])])):
                inner = ("closure", {"params": ["x"] if name == "return" else [], "vararg": vararg, "body": body})
                whole = [("local", ["a"], [inner]), ("call", ("call", L("a"), [N(1), N(2)], "one")), CALL("h", VALUE("a"))]
                for kind, program, open_ in (("main", body, vararg), ("nested", whole, False), ("both", whole, True)):
                    fn = luac.compile_program(program, version, open_)
                    made = product(f"small-{name}-{kind}-{version}-{int(vararg)}", rule, fn, version, rng, None, dialect(81, fpf=rng.choice((50, 50, 1, 20))),
                                   rng.choice((0, 1, 3)))
                    cases.append(made)
    return cases


REPAGE = [None, None, dialect(81, fpf=8), dialect(81, fpf=33), dialect(81, fpf=3)]


def c16(rng, scale):
    cases = structured(rng, "C16", int(170 * scale), ["closure", "closure", "vararg"], outs=REPAGE)
    for n in range(int(40 * scale)):
        version = rng.choice([80, 81])
        fn = Soup(rng, version, dialect(version), 15, loops=False, lists=False).build()
        if rng.random() < 0.4:
            fn = strip(fn)
        cases.append(case(f"s{n}", "C16", random_format(rng, 0), settings_for(version, None, rng.choice([None, dialect(81, fpf=9)])),
                          chunk(fn, version, random_format(rng, 0))))
    for depth in (2, 10, 60, 150, 199, 200):
        for version in (80, 81):
            cases.append(case(f"deep{depth}-{version}", "C16", [0, 0, 4, 4, 4, 8, 0], default_settings(), nested_bytes(version, depth)))
    cases += programs(rng, "C16", int(40 * scale), ["closure", "closure", "closure", "for", "forin"], version=None,
                      fpfs=((None, None), (None, 8), (None, 33)), tag="run")
    # many nested functions, upvalues up to the limit of Lua
    for nups in (0, 1, 2, 31, 32, 59, 60, 255):
        for version in (80, 81):
            for bare in (0, 1):
                sub = function(code=[("GETUPVAL", 0, max(0, nups - 1), 0), ("RETURN", 0, 2, 0)] if nups else [("RETURN", 0, 1, 0)], nups=nups,
                               upnames=[] if bare else [b"u%d" % i for i in range(nups)], lines=[] if bare else None)
                code = [("CLOSURE", 1, i) for i in range(0)]
                for i in range(3):
                    code.append(("CLOSURE", i % 2, i))
                    code += [("MOVE", 0, (j + i) % 3, 0) for j in range(nups)]
                fn = function(code=code + [("RETURN", 0, 1, 0)], subs=[sub, dict(sub, line=7), dict(sub, line=8)], stack=4)
                cases.append(case(f"ups{nups}-{version}-{bare}", "C16", [0, 0, 4, 4, 4, 8, 0], default_settings(), chunk(fn, version, DEFAULT)))
    cases += large(rng, "C16", ("subs",), (255, 256, 257, 300))
    return cases + constructors(rng, "C16", ("closure", "upvalue", "of-upvalue", "call-upvalue")) + rich(rng, "C16", int(10 * scale))


def c17(rng, scale):
    cases = structured(rng, "C17", int(100 * scale), ["for", "forin", "table", "vararg", "branch"], outs=REPAGE)
    # functions of all sizes around the limit whose conversion needs room
    for version, limit in ((80, 250), (80, 100), (80, 30), (81, 250), (81, 100)):
        for locals_ in sorted({0, 5, limit - 12, limit - 9, limit - 8, limit - 7, limit - 6, limit - 5, limit - 4, limit - 3, limit - 2, limit - 1}):
            for shape in ("for", "for0", "forin1", "forin3", "forin0", "vararg", "table", "plain"):
                if locals_ < 0:
                    continue
                names = [f"v{i}" for i in range(locals_)]
                body = [("local", names, [])] if names else []
                if shape == "for":
                    body.append(("for", "i", ("num", 1), ("num", 2), None, [("call", ("call", ("global", "f"), [("local", "i")], "one"))]))
                elif shape == "for0":
                    # a body that needs no registers of its own
                    body.append(("for", "i", ("num", 1), ("num", 2), None, [("assign", ("global", "g"), ("local", "i"))]))
                elif shape == "forin0":
                    body.append(("forin", ["a", "b", "c", "d", "e"][:1 if version == 80 else 5], [("global", "it")],
                                 [("assign", ("global", "g"), ("local", "a"))]))
                elif shape.startswith("forin"):
                    body.append(("forin", ["a", "b", "c"][:int(shape[5])], [("global", "it")], [("call", ("call", ("global", "f"), [], "one"))]))
                elif shape == "table":
                    body.append(("local", ["t"], [("table", [("item", ("num", i)) for i in range(4)])]))
                try:
                    fn = luac.compile_program(body, version, shape == "vararg", limit=250)
                except luac.TooBig:
                    continue
                page = rng.choice([50, 3]) if shape != "table" and version == 80 else rng.choice([50, 32, 3]) if version == 80 else 32
                s = default_settings(output=dialect(81, limit=limit, fpf=page))
                cases.append(case(f"{shape}-{version}-{limit}-{locals_}", "C17", [0, 0, 4, 4, 4, 8, 0], s, chunk(fn, version, DEFAULT)))
    # constructors whose elements reach the limit, or would
    for version in (80, 81):
        for limit in (100, 250, 255, 1000):
            for sfpf, dfpf in ((32, 50), (3, 20), (50, 20), (20, 30)):
                for spare in range(-1, 5):
                    top = min(limit, 255)
                    n = rng.choice([dfpf, dfpf, dfpf + 1, 2 * dfpf, dfpf - 1, sfpf, sfpf + 1, 2 * sfpf])
                    locals_ = top - spare - min(n, max(sfpf, dfpf)) - 1
                    items = [("item", N(i)) for i in range(n)] + ([("item", OPEN("f"))] if rng.random() < 0.2 else [])
                    try:
                        fn = luac.compile_program([("local", [f"v{i}" for i in range(locals_)], []), CALL("f") if rng.random() < 0.1 else
                                                   ("local", ["t"], [("table", items)])], version, fpf=sfpf, limit=254)
                        s = [dialect(80, limit=254, fpf=sfpf), dialect(81, limit=255, fpf=sfpf), dialect(81, limit=limit, fpf=dfpf)]
                        data = chunk(fn, version, DEFAULT, s[version - 80])
                    except (luac.TooBig, Unencodable):
                        continue
                    cases.append(case(f"full-{version}-{limit}-{sfpf}-{dfpf}-{spare}", "C17", [0, 0, 4, 4, 4, 8, 0], s, data))
    for stack in (0, 1, 2, 99, 100, 101, 249, 250, 251, 255):
        for limit in (100, 250, 255, 1000):
            for version in (80, 81):
                s = [dialect(80, limit=255), dialect(81, limit=255), dialect(81, limit=limit, fpf=rng.choice([50, 20]))]
                fn = function(code=[("RETURN", 0, 1, 0)], stack=stack)
                cases.append(case(f"stack{stack}-{limit}-{version}", "C17", [0, 0, 4, 4, 4, 8, 0], s, chunk(fn, version, DEFAULT)))
    return cases + without_running(constructors(rng, "C17")) + without_running(topmost(rng, "C17"))


def c18(rng, scale):
    cases = programs(rng, "C18", int(45 * scale), list(luac.Random.WEIGHTS), version=None, fpfs=((None, None), (None, 8), (None, 33)),
                     tag="run", stripped=0)
    cases += structured(rng, "C18", int(150 * scale), list(luac.Random.WEIGHTS), outs=REPAGE, stripped=0.3)
    for n in range(int(60 * scale)):
        version = rng.choice([80, 81])
        fn = Soup(rng, version, dialect(version), 15, loops=False, lists=False).build()
        cases.append(case(f"s{n}", "C18", random_format(rng, 0), settings_for(version, None, rng.choice([None, dialect(81, fpf=9)])),
                          chunk(fn, version, random_format(rng, 0))))
    cases += large(rng, "C18", ("code", "locals"), (255, 256, 257)) + large(rng, "C18", ("code",), (65540,), (rng.choice((80, 81)),))
    return (cases + constructors(rng, "C18", ("call", "global", "index-call", "concats", "and", "calls", "arith", "method"))
            + rich(rng, "C18", int(8 * scale)) + smallest(rng, "C18"))


def c28(rng, scale):
    cases = programs(rng, "C28", int(45 * scale), list(luac.Random.WEIGHTS), version=None, fpfs=((None, None), (None, 8), (None, 33), (3, 50), (50, 2)),
                     args=(0, 0, 2), tag="run", stripped=0.05)
    cases += programs(rng, "C28", int(30 * scale), ["for", "forin", "vararg"], version=80, args=(0, 3), tag="loop", stripped=0)
    cases += structured(rng, "C28", int(20 * scale), list(luac.Random.WEIGHTS), outs=REPAGE, stripped=0.1)
    return cases + constructors(rng, "C28", ("call", "index-call", "method", "nil")) + rich(rng, "C28", int(15 * scale)) + smallest(rng, "C28")


def c19(rng, scale):
    cases = structured(rng, "C19", int(220 * scale), list(luac.Random.WEIGHTS), outs=REPAGE)
    for n in range(int(40 * scale)):
        version = rng.choice([80, 81])
        fn = Soup(rng, version, dialect(version), 20, loops=False).build()
        cases.append(case(f"s{n}", "C19", random_format(rng, 0), settings_for(version), chunk(fn, version, random_format(rng, 0))))
    return cases + without_running(many_constants(rng, "C19", (255, 256, 1024, 65536))) + without_running(constructors(rng, "C19")) + without_running(rich(rng, "C19", int(30 * scale)) + smallest(rng, "C19"))


def c22(rng, scale):
    cases = structured(rng, "C22", int(140 * scale), list(luac.Random.WEIGHTS), outs=REPAGE)
    # constants that look like the names a translation may choose
    loops = [("for", "i", ("num", 1), ("num", 2), None, [("forin", ["a", "b"], [("global", "it")], [
        ("for", "j", ("num", 1), ("num", 2), None, [("call", ("call", ("global", "f"), [("local", "j")], "one"))])])])]
    base = luac.compile_program(loops, 80)
    plain = chunk(base, 80, DEFAULT)
    cases.append(case("loops", "C22", [0, 0, 4, 4, 4, 8, 0], default_settings(), plain))
    for n in range(int(60 * scale)):
        taken = [random_string(rng) for _ in range(3)] + [b"__%%lunify%%__temp%d_%d" % (rng.randint(0, 30), rng.randint(0, 4)) for _ in range(rng.choice([0, 5, 30, 120]))]
        names = [b"type", b"next", b"table", None, True, 1.5, b"temp%d" % rng.randint(0, 9), b"LUNIFY%d" % rng.randint(0, 40)]
        extra = [rng.choice(names) for _ in range(rng.randint(0, 4))]
        fn = dict(base, consts=list(base["consts"]) + taken + extra)
        cases.append(case(f"names{n}", "C22", [0, 0, 4, 4, 4, 8, 0], default_settings(), chunk(fn, 80, DEFAULT)))
    # every name with a number up to some bound
    for place in range(24):
        taken = [b"__%%lunify%%__temp%d_%d" % (place, i) for i in range(rng.choice((9, 10, 11, 64, 100, 101, 129, 257)))]
        rng.shuffle(taken)
        fn = dict(base, consts=list(base["consts"]) + taken)
        cases.append(case(f"dense{place}", "C22", [0, 0, 4, 4, 4, 8, 0], default_settings(), chunk(fn, 80, DEFAULT)))
    # and so many constants that their numbers need more bits
    for count in (250, 256, 1020, 1024, 65536):
        fn = dict(base, consts=list(base["consts"]) + [i % 3 == 0 for i in range(count)])
        cases.append(case(f"many{count}", "C22", [0, 0, 4, 4, 4, 8, 0], default_settings(), chunk(fn, 80, DEFAULT)))
    return cases


# ---------------------------------------------------------------------------------------------------------------- C20

def c20(rng, scale):
    cases, seen = [], set()

    def layout(spec):
        key = encode.layout_text(spec)
        if key not in seen:
            seen.add(key)
            cases.append({"id": "l" + key, "kind": "layout", "rule": "LAYOUT", "spec": [list(p) for p in spec]})

    minimum = {1: 6, 2: 7, 3: 8, 4: 8}
    for order in itertools.permutations((1, 2, 3, 4)):
        # each operand around its bounds, and the whole around 64 bits
        layout([(o, minimum[o]) for o in order])
        layout([(o, 16) for o in order])
        for which in (1, 2, 3, 4):
            for size in sorted({0, 1, minimum[which] - 1, minimum[which], minimum[which] + 1, 30, 31, 32, 33, 63, 64, 65, 255}):
                layout([(o, size if o == which else minimum[o]) for o in order])
        for _ in range(int(20 * scale)):
            sizes = {o: rng.randint(minimum[o], 31) for o in order}
            layout([(o, sizes[o]) for o in order])
            last = rng.choice(order)
            rest = sum(s for o, s in sizes.items() if o != last)
            for total in (63, 64, 65):
                if total - rest > 0:
                    layout([(o, total - rest if o == last else sizes[o]) for o in order])
    for twice in itertools.product((1, 2, 3, 4), repeat=4):
        if len(set(twice)) < 4:
            layout([(o, 9) for o in twice])
    # code that uses every bit of accepted layouts
    for n in range(int(160 * scale)):
        wide = rng.random() < 0.6
        mine, yours = random_layout(rng, 64 if wide else 32, wide), random_layout(rng, 64 if wide else 32, wide)
        version = rng.choice([80, 81, 81])
        dia, out = dialect(version, layout=mine), dialect(81, layout=yours)
        fn = edge_function(rng, version, dia, out, rng.choice([1, 2, 4]))
        cw = 8 if wide else rng.choice((4, 8))
        try:
            data = chunk(fn, version, [0, rng.randrange(2), 4, 4, cw, 8, 0], dia)
        except Unencodable:
            continue
        cases.append(case(f"e{n}", "C20", [0, rng.randrange(2), 4, 4, cw, 8, 0], settings_for(version, dia, out), data))
    return cases + narrow_words(rng, "C20", int(2 * scale))


# ---------------------------------------------------------------------------------------------------------------- C21

def c21(rng, scale):
    cases = []
    for n in range(int(130 * scale)):
        integral = rng.randrange(2)
        wide = rng.random() < 0.2
        layouts = [random_layout(rng, 64 if wide else 32, wide) if rng.random() < 0.5 else None for _ in range(3)]
        fpf = rng.choice([50, 50, 7])
        mine, mid, out = [dialect(81, fpf=fpf, layout=l) for l in layouts]
        fn = Soup(rng, 81, mine, rng.choice([4, 12, 25]), big=rng.random() < 0.1, integral=bool(integral)).build() \
            if rng.random() < 0.6 else source(rng, 81, integral, kind="program", fpf=fpf, limit=2500)[0]
        cw = 8 if wide else None
        try:
            data = chunk(plain_booleans(fn), 81, random_format(rng, integral, cw=cw), mine)
        except Unencodable:
            continue
        cases.append({"id": f"s{n}", "kind": "steps", "rule": "C21", "in": list(data),
                      "fmt": random_format(rng, rng.choice([integral, integral, 0]), cw=cw), "set": [dialect(80), mine, out],
                      "midfmt": random_format(rng, rng.choice([integral, integral, 0]), cw=cw), "midset": [dialect(80), mine, mid],
                      "set2": [dialect(80), mid, out], "set3": [dialect(80), out, out]})
    # there and back again
    for n in range(int(30 * scale)):
        fn, _ = source(rng, 81, 0, limit=2500)
        home, away = random_format(rng, 0), random_format(rng, 0)
        home[5] = away[5] = 8
        cases.append({"id": f"b{n}", "kind": "steps", "rule": "C21", "in": list(chunk(plain_booleans(fn), 81, home)), "fmt": home, "set": default_settings(),
                      "midfmt": away, "midset": default_settings(), "set2": default_settings(), "set3": default_settings()})
    return cases


# ---------------------------------------------------------------------------------------------------------------- C23

def c23(rng, scale):
    """Good and bad inputs of both versions in one process; the order is part of the stimulus."""
    cases = []
    for n in range(int(150 * scale)):
        fn, version = source(rng, size=6, limit=2500)
        data = chunk(fn, version, DEFAULT)
        if rng.random() < 0.3:
            data = bytearray(data)
            data[rng.randrange(4, len(data))] ^= 1 << rng.randrange(8)
        if rng.random() < 0.1:
            data = data[:rng.randrange(len(data))]
        settings = settings_for(version, None, dialect(81, fpf=rng.choice([50, 50, 8]), limit=rng.choice([250, 250, 20]),
                                                       layout=None if rng.random() < 0.7 else random_layout(rng, 32)))
        cases.append(dict(case(f"h{n}", "HISTORY", random_format(rng), settings, data), kind="history"))
    # what the other properties look at, side by side
    for other, most in ((c22, 40), (c14, 40), (c13, 20), (c15, 20), (c09, 20), (c07, 20), (c03, 20)):
        found = [c for c in other(rng, 0.3) if c.get("kind", "call") in ("call", "run") and len(c["in"]) <= 3000]
        if other is c22:
            found = [c for c in found if c["id"].startswith("names")] * 3 + found
        for c in rng.sample(found, min(len(found), int(most * scale / 4))):
            cases.append(dict(case("x" + str(len(cases)) + c["id"], "HISTORY", c["fmt"], c["set"], c["in"]), kind="history"))
    # functions that need temporaries, one after the other
    loops = [("for", "i", ("num", 1), ("num", 2), None, [("forin", ["a"], [("global", "it")], [])])]
    for n in range(3):
        cases.append(dict(case(f"loop{n}", "HISTORY", [0, 0, 4, 4, 4, 8, 0], default_settings(), chunk(luac.compile_program(loops, 80), 80, DEFAULT)),
                          kind="history"))
    cases.append(dict(case("deep", "HISTORY", [0, 0, 4, 4, 4, 8, 0], default_settings(), nested_bytes(81, 199)), kind="history"))
    cases.append(dict(case("toodeep", "HISTORY", [0, 0, 4, 4, 4, 8, 0], default_settings(), nested_bytes(81, 900)), kind="history"))
    rng.shuffle(cases)
    return cases


# ------------------------------------------------------------------------------------------------------------ C24 C25 C26

STANDARD = default_settings()


def leave(c, rng, share=1.0):
    """The case with what is standard about it left to the defaults of the crate."""
    left = [[n + 1, field] for n, s in enumerate(c["set"]) for field in encode.FIELDS if s[field] == STANDARD[n][field]]
    left += [[0, i + 1] for i in range(7) if c["fmt"][i] == DEFAULT[i]]
    return dict(c, left=[x for x in left if rng.random() < share])


def pool(rng, takes, rule, kinds=("call",), limit=3000, scale=0.4):
    """Cases of other properties, as cases of this one."""
    cases = []
    for other, most in takes:
        found = [c for c in other(rng, scale) if c.get("kind", "call") in kinds and len(c["in"]) <= limit]
        for c in rng.sample(found, min(len(found), int(most))):
            cases.append(dict(c, id=f"{other.__name__}-{len(cases)}-{c['id']}", rule=rule))
    return cases


def c24(rng, scale):
    cases = pool(rng, [(c02, 15 * scale), (c03, 30 * scale), (c04, 40 * scale), (c05, 15 * scale), (c08, 60 * scale), (c09, 30 * scale),
                       (c17, 70 * scale), (c19, 25 * scale)], "C24")
    cases += pool(rng, [(c11, 5 * scale), (c14, 25 * scale), (c15, 3 * scale)], "C24", kinds=("run",))
    # constructors around the batches of unmodified Lua
    for version in (80, 81):
        for n in (31, 32, 33, 49, 50, 51, 64, 65, 100, 101, 150):
            body = [("local", ["x"], [N(1)]), ("local", ["t"], [("table", list_of(n, special={0: ("item", G("g")), n - 1: ("item", VALUE("f"))}))]),
                    CALL("f", L("t"), L("x"))]
            cases += handmade(rng, "C24", [(f"items{n}-{version}", body)], version)
    # stacks around the limit of unmodified Lua
    for version in (80, 81):
        for stack in (248, 249, 250, 251, 252, 255):
            fn = function(code=[("LOADNIL", 0, min(stack, 255) - 1, 0), ("RETURN", 0, 1, 0)], stack=stack)
            cases.append(case(f"stack{stack}-{version}", "C24", DEFAULT, default_settings(), chunk(fn, version, [0, 0, 4, 4, 4, 8, 0])))
            for given in (0, 1, 2):
                s = default_settings()
                s[given] = dict(s[given], limit=255)
                cases.append(case(f"stack{stack}-{version}-{given}", "C24", DEFAULT, s, chunk(fn, version, [0, 0, 4, 4, 4, 8, 0])))
    return [leave(c, rng, rng.choice((1.0, 1.0, 0.5))) for c in cases]


def c25(rng, scale):
    """What every property looks at, for all builds of the crate."""
    cases = pool(rng, [(c01, 200 * scale), (c02, 8 * scale), (c03, 15 * scale), (c04, 25 * scale), (c05, 15 * scale), (c06, 15 * scale), (c07, 60 * scale),
                       (c08, 50 * scale), (c09, 40 * scale), (c10, 30 * scale), (c17, 30 * scale), (c18, 15 * scale), (c19, 15 * scale), (c22, 45 * scale),
                       (c20, 30 * scale)],
                 "HISTORY", kinds=("call",))
    cases += pool(rng, [(c11, 10 * scale), (c12, 10 * scale), (c13, 12 * scale), (c14, 25 * scale), (c15, 10 * scale), (c16, 10 * scale)],
                  "HISTORY", kinds=("run",))
    return [dict(leave(c, rng) if rng.random() < 0.3 else c, kind="builds") for c in cases]


def short_numbers(fn):
    """The same function with numbers that every floating-point format holds."""
    def short(c):
        return c if isinstance(c, bool) or not isinstance(c, (int, float)) else 0.5 if c != c or not float(c).is_integer() else int(c) % 4096
    return dict(fn, consts=[short(c) for c in fn["consts"]], subs=[short_numbers(s) for s in fn["subs"]])


def c26(rng, scale):
    """The same functions in several encodings."""
    cases = []

    def add(ident, fn, version, fmt, output, fpf=None, integral=0, wide=False):
        ways = []
        fn = plain_booleans(fn)
        for n in range(6):
            layout = None if n % 2 == 0 else random_layout(rng, 64 if wide else 32, wide and rng.random() < 0.5)
            mine = dialect(version, fpf=fpf, layout=layout, sig=rng.choice([None, None, b"\x1bLua", b"Lu\x7f", b"\x1bL", b"\x1bLuaX"]))
            form = random_format(rng, integral, cw=8 if wide else None)
            if n == 0 and rng.random() < 0.5:
                form = list(fmt)
            settings = settings_for(version, mine, output)
            settings[81 - version] = dict(settings[81 - version], sig=mine["sig"])
            try:
                ways.append([list(chunk(fn, version, form, mine)), settings])
            except (Unencodable, OverflowError):
                continue
        if len(ways) > 1:
            cases.append({"id": ident, "kind": "encodings", "rule": "ENCODINGS", "in": ways[0][0], "fmt": fmt, "set": ways[0][1], "ways": ways})

    for n in range(int(60 * scale)):
        version = rng.choice((80, 80, 81))
        integral = rng.random() < 0.15
        fpf = rng.choice((None, None, 3, 5))
        fn, _ = source(rng, version, int(integral), fpf=fpf, limit=2000, kind=rng.choice(("soup", "program", "program")))
        if rng.random() < 0.8 and not integral:
            fn = short_numbers(fn)
        output = dialect(81, fpf=rng.choice((50, 3, 4)), limit=rng.choice((250, 250, 30)), layout=random_layout(rng, 32) if rng.random() < 0.3 else None)
        add(f"p{n}", fn, version, random_format(rng, rng.choice((integral, 0)), tag=True), output, fpf, integral)
    for n in range(int(20 * scale)):
        version = rng.choice((80, 81))
        fn = short_numbers(Soup(rng, version, dialect(version), rng.choice((5, 20)), big=True, loops=False).build())
        add(f"w{n}", fn, version, random_format(rng, 0), dialect(81, layout=random_layout(rng, 64, True) if rng.random() < 0.5 else None), wide=True)
    for n, text in enumerate([None, b"", b"\0", b"a\0b", bytes(range(256)), b"x" * 255, b"y" * 256, b"z" * 70000]):
        for version in (80, 81):
            add(f"t{n}-{version}", named([text, b"q" if n % 2 else b"r"], rng), version, random_format(rng, 0), dialect(81))
    return cases


# ------------------------------------------------------------------------------------------- C11 C12 C13 C14 C15 (runs)

def product(ident, rule, fn, version, rng, sfpf=None, out=None, args=0, strict=False, fmt=None, source_format=None, limit=6000):
    """A conversion whose two sides are run side by side; None when the chunk is too large to be worth it."""
    mine = dialect(version, fpf=sfpf)
    settings = settings_for(version, mine, out or dialect(81))
    data = chunk(fn, version, source_format or random_format(rng, 0), mine)
    if len(data) > limit:
        return None
    return dict(case(ident, rule, fmt or random_format(rng, 0), settings, data), kind="run", version=version, sfpf=mine["fpf"],
                dfpf=settings[2]["fpf"], args=args, strict=strict)


def programs(rng, rule, count, focuses, version=80, fpfs=((None, None),), args=(0,), size=(4, 8, 12), tag="p", stripped=0.2, vararg=None,
             limit=3500, items=(None, 0, 2, 4)):
    cases = []
    n = 0
    while len(cases) < count:
        n += 1
        v = version or rng.choice([80, 81])
        sfpf, dfpf = rng.choice(fpfs)
        fn = luac.random_function(rng, rng.choice(focuses), v, rng.choice(size), sfpf, items=rng.choice(items), vararg=vararg)
        if rng.random() < stripped:
            fn = strip(fn)
        fn = varied(fn, rng, rule)
        made = product(f"{tag}{n}", rule, fn, v, rng, sfpf, dialect(81, fpf=dfpf), rng.choice(args), limit=limit)
        if made:
            cases.append(made)
    return cases


def handmade(rng, rule, bodies, version=80, vararg=False, args=0, sfpf=None, dfpf=None):
    cases = []
    for name, body in bodies:
        try:
            fn = luac.compile_program(body, version, vararg, sfpf)
        except luac.TooBig:
            continue
        fn = varied(fn, rng, rule)
        made = product(name, rule, fn, version, rng, sfpf, dialect(81, fpf=dfpf), args, limit=20000)
        if made:
            cases.append(made)
    return cases


G = lambda name: ("global", name)
L = lambda name: ("local", name)
N = lambda value: ("num", value)
CALL = lambda name, *args: ("call", ("call", G(name), list(args), "one"))
VALUE = lambda name, *args: ("call", G(name), list(args), "one")
OPEN = lambda name, *args: ("call", G(name), list(args), "open")


def long_things():
    """Bodies whose translation changes length in the middle of branches and loops."""
    yield "for", ("for", "i", N(1), N(2), None, [CALL("f", L("i"))])
    yield "forin1", ("forin", ["k"], [G("it")], [CALL("f", L("k"))])
    yield "forin3", ("forin", ["k", "v", "w"], [G("it"), G("st")], [CALL("f", L("k"), L("v"), L("w"))])
    yield "pairs", ("forin", ["k", "v"], [("table", [("item", N(4)), ("item", N(5))])], [CALL("f", L("k"), L("v"))])
    yield "table", ("local", ["t"], [("table", [("item", N(i)) for i in range(40)])])
    yield "closure", ("local", ["q"], [("closure", {"params": ["p"], "vararg": False, "body": [("return", [L("p"), L("x")])]})])
    yield "vararg", ("local", ["q"], [("closure", {"params": ["p"], "vararg": True, "body": [CALL("f", L("p"), L("arg"))]})])


LONG = ("if", "else", "while", "repeat", "break")


def many_constants(rng, rule, counts):
    """Loops in functions whose constants need more than eight, ten, sixteen bits."""
    cases = []
    body = [("local", ["x"], [VALUE("x")]), ("for", "i", N(1), N(2), None, [
        ("forin", ["a", "b"], [("table", [("item", N(4)), ("item", N(5))])], [CALL("f", L("i"), L("a"), L("b"), L("x"))])]), CALL("h", L("x"))]
    for count in counts:
        fn = luac.compile_program(body, 80, False, None)
        fn = dict(fn, consts=list(fn["consts"]) + [i % 3 == 0 for i in range(count - len(fn["consts"]) - rng.choice((0, 0, 1, 2, 3)))])
        cases.append(product(f"constants{count}", rule, fn, 80, rng, limit=1 << 20))
    return cases


def long_code(rng, rule, sizes, makers, versions=(80, 81)):
    """Jumps over thousands of instructions: loops and branches around a long piece of code that contains translated loops."""
    cases = []
    for version in versions:
        for size in sizes:
            fill = [("assign", G("g"), G("h"))] * (size // 2)
            things = [("local", ["t"], [("table", [("item", N(i)) for i in range(rng.randint(30, 90))])])]
            if version == 80:
                things += [("for", "k", N(1), N(2), None, [CALL("f", L("k"))]),
                           ("forin", ["k", "v"], [G("it"), G("st")], [CALL("f", L("k"), L("v"))])]
            cut = len(fill) * rng.randint(1, 3) // 4
            skipped = fill[:cut] + things + fill[cut:]
            branch = ("if", [(VALUE("c"), skipped)], None)
            x = ("local", ["x"], [VALUE("x")])
            bodies = {
                "if": [x, branch, CALL("h", L("x"))],
                "else": [x, ("if", [(VALUE("c"), skipped)], [CALL("f", N(2))]), CALL("h", L("x"))],
                "while": [x, ("while", VALUE("w"), [branch, CALL("f", L("x"))]), CALL("h", L("x"))],
                "repeat": [x, ("repeat", [branch, ("assign", L("x"), VALUE("y"))], L("x")), CALL("h", L("x"))],
                "for": [x, ("for", "i", N(1), N(3), None, [branch, CALL("f", L("i"), L("x"))]), CALL("h", L("x"))],
                "assigned": [x, ("for", "i", N(1), N(3), None, [branch, ("assign", L("i"), ("bin", "ADD", L("i"), N(1)))]), CALL("h", L("x"))],
                "forin": [x, ("forin", ["a", "b"], [G("it"), G("st")], [branch, CALL("f", L("a"), L("x"))]), CALL("h", L("x"))],
                "break": [x, ("while", VALUE("w"), [("if", [(VALUE("d"), [("break",)])], None), branch]), CALL("h", L("x"))],
            }
            for name, body in bodies.items():
                if name not in makers:
                    continue
                fn = luac.compile_program(body, version, False, None)
                cases.append(product(f"{name}-{size}-{version}", rule, fn, version, rng, None, dialect(81, fpf=rng.choice((None, 20, 50))), limit=1 << 20))
    return cases


def c11(rng, scale):
    cases = programs(rng, "C11", int(60 * scale), ["branch", "branch", "branch", "closure", "for", "forin"])
    bodies = []
    for name, thing in long_things():
        x = ("local", ["x"], [VALUE("g")])
        after = CALL("h", L("x"))
        bodies += [
            (f"if-{name}", [x, ("if", [(L("x"), [thing, CALL("f", N(1))])], None), after]),
            (f"ifelse-{name}", [x, ("if", [(L("x"), [CALL("f", N(1))])], [thing]), after]),
            (f"elseif-{name}", [x, ("if", [(L("x"), [thing]), (("cmp", "LT", L("x"), N(3), True), [thing, thing])], [CALL("f", N(2))]), after]),
            (f"while-{name}", [x, ("while", VALUE("c"), [thing, ("if", [(VALUE("d"), [("break",)])], None)]), after]),
            (f"repeat-{name}", [x, ("repeat", [thing, ("assign", L("x"), VALUE("c"))], L("x")), after]),
            (f"last-{name}", [x, ("if", [(("cmp", "EQ", L("x"), N(1), False), [("return", [L("x")])])], None), thing]),
            (f"and-{name}", [x, thing, ("local", ["y"], [("and", L("x"), ("or", VALUE("f"), N(3)))]), CALL("h", L("y"))]),
            (f"open-{name}", [x, thing, ("call", ("call", G("f"), [N(1), OPEN("g", N(2))], "one")), ("return", [L("x"), OPEN("h")])]),
            (f"tail-{name}", [x, ("if", [(L("x"), [thing])], None), ("return", [OPEN("h", L("x"))])]),
        ]
    cases += limited(rng, "C11", int(8 * scale))
    return cases + handmade(rng, "C11", bodies) + rich(rng, "C11", int(15 * scale), 80, ((None, None),)) \
        + high(rng, "C11", int(6 * scale), ["branch", "rich"], 80) \
        + long_code(rng, "C11", [4300], rng.sample(LONG, 3), (80,)) + long_code(rng, "C11", [33000], [rng.choice(LONG)], (80,))


def c12(rng, scale):
    cases = programs(rng, "C12", int(60 * scale), ["for"])
    bodies = []
    limits = [(1, 3, None), (1, 1, None), (1, 0, None), (3, 1, -1), (1, 3, -1), (0, 1, 0.25), (1, 0, -0.5), (2, 9, 3), (-2, 2, 2), (1, 2, 5)]
    for first, last, step in limits:
        loop = lambda body, name="i": ("for", name, N(first), N(last), N(step) if step else None, body)
        tag = f"{first},{last},{step}"
        inner = [CALL("f", L("i"), L("x"))]
        bodies += [
            (f"plain {tag}", [("local", ["x"], [VALUE("g")]), loop(inner), CALL("h", L("x"))]),
            (f"empty {tag}", [loop([]), CALL("h")]),
            (f"assigned {tag}", [("local", ["x"], [N(2)]), loop(inner + [("assign", L("i"), ("bin", "ADD", L("i"), N(1)))] + inner)]),
            (f"break {tag}", [("local", ["x"], [N(2)]), loop(inner + [("if", [(VALUE("c"), [("break",)])], None)]), CALL("h", L("x"))]),
            (f"captured {tag}", [("local", ["x", "y"], [N(2)]), loop([("assign", L("y"), ("closure", {
                "params": [], "vararg": False, "body": [("return", [L("i")])]})), CALL("f", L("y"))]),
                ("call", ("call", L("y"), [], "one")), CALL("h", ("call", L("y"), [], "one"))]),
            (f"shared {tag}", [("local", ["x"], [N(2)]), loop([("local", ["q"], [("closure", {"params": ["p"], "vararg": False, "body": [
                ("assign", L("i"), L("p")), ("return", [L("i")])]})]), CALL("f", L("i")), ("call", ("call", L("q"), [N(20)], "one")),
                CALL("f", L("i"))])]),
            (f"nested {tag}", [("local", ["x"], [N(2)]), loop([loop([CALL("f", L("i"), L("j"), L("x"))], "j")] + inner)]),
            (f"sequence {tag}", [("local", ["x"], [N(2)]), loop(inner), ("local", ["z"], [VALUE("g")]), loop(inner), CALL("h", L("x"), L("z"))]),
            (f"upvalue {tag}", [("local", ["n"], [N(0)]), ("local", ["q"], [("closure", {"params": [], "vararg": False, "body": [
                loop([("assign", L("n"), ("bin", "ADD", L("n"), L("i")))]), ("return", [L("n")])]})]),
                CALL("f", ("call", L("q"), [], "one")), CALL("f", ("call", L("q"), [], "one")), CALL("h", L("n"))]),
        ]
    return cases + handmade(rng, "C12", bodies) + high(rng, "C12", int(6 * scale), ["for"], 80) \
        + long_code(rng, "C12", [4300], ["for", "assigned"], (80,)) + many_constants(rng, "C12", (255, 256, 1024, 65536)) + c12_findings()


def many_variables(rng, rule):
    """Generic loops with more variables than anyone writes."""
    bodies = []
    for count in (8, 9, 12, 16, 17, 31, 33, 65, 100):
        names = [f"k{i}" for i in range(count)]
        for tag, values in (("global", [G("it")]), ("direct", [("table", [("item", N(7)), ("item", N(8))])])):
            bodies.append((f"many {count} {tag}", [("local", ["x"], [N(6)]), ("forin", names, values, [
                CALL("f", *[L(n) for n in names[:3] + names[-3:]])]), CALL("h", L("x"))]))
    return handmade(rng, rule, bodies)


def c13(rng, scale):
    cases = programs(rng, "C13", int(60 * scale), ["forin"])
    bodies = []
    for count in (1, 2, 3, 4, 7):
        names = ["k", "v", "w", "u", "p", "q", "r"][:count]
        use = CALL("f", *[L(n) for n in names])
        sources = {
            "global": [G("it")], "state": [G("it"), G("st")], "all": [G("it"), G("st"), N(0)], "call": [VALUE("pairs", G("t"))],
            "next": [G("next"), ("table", [("item", N(7)), ("item", N(8))])],
            "direct": [("table", [("item", N(7)), ("pair", ("str", "z"), N(8))])], "none": [("table", [])],
            "closure": [("closure", {"params": ["a", "b"], "vararg": False, "body": [
                ("if", [(("cmp", "LT", L("b"), N(3), True), [("return", [("bin", "ADD", L("b"), N(1)), L("a")])])], None)]}), N(5), N(1)],
        }
        for kind, values in sources.items():
            loop = lambda body: ("forin", names, values, body)
            tag = f"{count} {kind}"
            x = ("local", ["x", "y"], [VALUE("g"), N(6)])
            bodies += [
                (f"plain {tag}", [x, loop([use]), CALL("h", L("x"), L("y"))]),
                (f"break {tag}", [x, loop([("if", [(VALUE("c"), [("break",)])], None), use]), CALL("h", L("x"))]),
                (f"nested {tag}", [x, loop([loop([use]), ("local", ["m"], [L("k")]), CALL("f", L("m"), L("x"))])]),
                (f"captured {tag}", [x, loop([("assign", L("y"), ("closure", {"params": [], "vararg": False, "body": [("return", [L("k"), L("x")])]})),
                                            CALL("f", L("y"))]), CALL("h", ("call", L("y"), [], "one"))]),
                (f"assigned {tag}", [x, loop([("assign", L("k"), N(9)), use])]),
                (f"empty {tag}", [loop([]), CALL("h", N(1))]),
                (f"for {tag}", [x, ("for", "i", N(1), N(2), None, [loop([("for", "j", N(1), N(1), None, [use])]), CALL("f", L("i"))])]),
            ]
    return cases + handmade(rng, "C13", bodies) + many_variables(rng, "C13") + high(rng, "C13", int(6 * scale), ["forin"], 80) \
        + long_code(rng, "C13", [4300], ["forin"], (80,)) + many_constants(rng, "C13", (255, 256, 1024)) + c13_findings()


def list_of(n, first=0, special=None):
    """A constructor of n items, with special things at some places."""
    items = []
    for i in range(n):
        items.append(("item", N(first + i)))
    for at, item in (special or {}).items():
        if 0 <= at < n:
            items[at] = item
    return items


PAGES = [(None, None), (None, 32), (None, 8), (None, 1), (None, 2), (None, 3), (None, 33), (None, 100), (100, 50), (130, 64), (80, 3), (4, 3), (3, 4), (2, 4), (5, 5), (1, 2)]


def every_value(version):
    """An expression for each instruction and each role of its operands.  v0..v2 are locals, u0..u5 upvalues."""
    closure = lambda *names: ("closure", {"params": [], "vararg": False, "body": [("return", [L(n) for n in names])]})
    g, h, v, u = G("g"), G("h"), L("v1"), L("u5")
    values = {
        "nil": ("nil",), "true": ("bool", True), "false": ("bool", False), "string": ("str", "s"), "global": g, "local": v, "upvalue": u,
        "field": ("index", g, ("str", "k")), "element": ("index", v, h), "elements": ("index", ("index", g, h), L("v2")),
        "of-upvalue": ("index", u, ("str", "k")),
        "not": ("NOT", g), "not-local": ("NOT", v), "minus": ("UNM", g), "minus-local": ("UNM", v),
        "concat": ("concat", [g, h]), "concats": ("concat", [g, v, ("str", "s")]),
        "call": VALUE("f"), "call1": VALUE("f", g), "call3": VALUE("f", v, h, N(1)), "call-open": VALUE("f", N(1), OPEN("g", h)),
        "call-upvalue": ("call", u, [g], "one"), "method": ("call", ("method", g, "m"), [], "one"),
        "method1": ("call", ("method", v, "m"), [h], "one"), "calls": VALUE("f", VALUE("h", g)),
        "and": ("and", g, h), "or": ("or", v, h), "and-or": ("or", ("and", v, g), VALUE("f")), "or-and": ("and", ("or", g, v), N(3)),
        "table0": ("table", []), "table": ("table", [("item", N(1)), ("item", g), ("pair", ("str", "k"), h)]),
        "table-open": ("table", [("item", g), ("item", OPEN("f"))]), "tables": ("table", [("item", ("table", [("item", g)]))]),
        "closure": closure(), "closure-local": closure("v0", "v2"), "closure-upvalue": closure("u4"), "closure-both": closure("u5", "v1", "u0"),
        "index-call": ("index", VALUE("f"), ("str", "k")), "arith": ("bin", "ADD", ("bin", "MUL", g, N(2)), ("UNM", h)),
    }
    for op in ("ADD", "SUB", "MUL", "DIV", "POW") + (() if version == 80 else ("MOD",)):
        values[op] = ("bin", op, g, h)
        values[op + "-local"] = ("bin", op, v, h)
        values[op + "-number"] = ("bin", op, N(2), g)
    for op in ("EQ", "LT", "LE"):
        values[op] = ("cmp", op, g, h, True)
        values[op + "-not"] = ("cmp", op, v, N(3), False)
    if version == 81:
        values.update({"length": ("LEN", g), "length-local": ("LEN", v), "vararg": ("vararg", "one"), "vararg-open": VALUE("f", v, ("vararg", "open")),
                       "vararg-index": ("index", ("vararg", "one"), ("str", "k"))})
    return values


def globally(expression):
    """The same with globals instead of locals."""
    if isinstance(expression, tuple):
        return G(expression[1]) if expression[:1] == ("local",) else tuple(globally(e) for e in expression)
    return [globally(e) for e in expression] if isinstance(expression, list) else expression


def constructors(rng, rule, kinds=None, shapes=("statement", "local", "nested", "first")):
    """A constructor with each kind of value at each place around the borders of batches."""
    cases = []
    pairs = [(2, 3), (3, 2), (3, 50), (5, 2), (1, 4), (4, 1), (2, 5), (7, 3)]
    for version in (80, 81):
        for kind, value in every_value(version).items():
            if kinds and not kind.startswith(kinds):
                continue
            for place in range(7):
                sfpf, dfpf = rng.choice(pairs)
                more = rng.choice((0, 1, 2, 3)) if kind in ("nil", "vararg") else 0
                items = [("item", value if place <= i <= place + more else N(i)) for i in range(7)]
                if rng.random() < 0.1:
                    items.append(("item", ("vararg", "open") if version == 81 and "vararg" in kind else OPEN("h", N(5))))
                if rng.random() < 0.2:
                    items[rng.choice([i for i in range(7) if i != place])] = ("item", value)
                shape = rng.choice(shapes)
                table = ("table", items)
                # in the very first register, where operands that are no registers look like some
                if shape == "first" and "upvalue" not in kind and "both" not in kind:
                    items = [(what, globally(item)) if not kind.startswith("closure") else (what, item) for what, item in items]
                    body = [("local", ["t"], [("table", items)]), CALL("f", L("t"))] if kind not in ("closure-local",) else []
                    if body:
                        cases += handmade(rng, rule, [(f"every-{kind}-{version}-{place}-{sfpf}-{dfpf}-{shape}", body)], version,
                                          version == 81 and "vararg" in kind, rng.randrange(4), sfpf, dfpf)
                        continue
                body = [CALL("f", table)] if shape == "statement" else [("local", ["t"], [table]), CALL("f", L("t"), L("v1"))] if shape == "local" \
                    else [("call", ("call", L("v2"), [N(1), table, G("h")], "one"))]
                few = rng.choice([["v1"], ["v1", "v2", "v0"]])
                body = [("local", few, [G("g"), N(4)][:len(few)])] + body
                if any(name in kind for name in ("upvalue", "both")):
                    uses = [("assign", L(f"u{i}"), L(f"u{i}")) for i in range(6)]
                    body = [("local", [f"u{i}" for i in range(6)], [N(10 + i) for i in range(6)]),
                            ("local", ["q"], [("closure", {"params": [], "vararg": False, "body": uses + body})]), ("call", ("call", L("q"), [], "one"))]
                cases += handmade(rng, rule, [(f"every-{kind}-{version}-{place}-{sfpf}-{dfpf}-{shape}", body)], version, version == 81 and "vararg" in kind,
                                  rng.randrange(4), sfpf, dfpf)
    return cases


def topmost(rng, rule):
    """Constructors whose last item takes the registers that nothing else does."""
    cases = []
    for version in (80, 81):
        for kind, value in every_value(version).items():
            if any(name in kind for name in ("upvalue", "both", "closure-local")):
                continue
            for n, sfpf, dfpf in ((rng.choice((4, 6, 8)), 3, 50), (rng.choice((3, 4)), 2, 5), (5, 50, 2), (7, 5, 4)):
                items = [("item", N(i)) for i in range(n)] + [("item", globally(value) if not kind.startswith("closure") else value)]
                cases += handmade(rng, rule, [(f"top-{kind}-{version}-{n}-{sfpf}-{dfpf}", [("local", ["t"], [("table", items)])])], version,
                                  version == 81 and "vararg" in kind, 0, sfpf, dfpf)
    return cases


def without_running(cases):
    """The same calls, judged without running the programs."""
    return [case(c["id"], c["rule"], c["fmt"], c["set"], c["in"]) for c in cases]


def pages(rng, rule, lists=((81, 300, 2, 3), (81, 261, 1, 50), (81, 531, 1, 2), (80, 300, 1, 50), (80, 4200, 32, 50), (81, 5200, 50, 33))):
    """Constructors whose batches have high numbers already in the original."""
    cases = []
    for version, n, sfpf, dfpf in lists:
        items = list_of(n + rng.randrange(-1, 2), special={i: ("item", VALUE("g", N(i))) for i in range(400, n - 1, 400)})
        body = [("local", ["t"], [("table", items)]), CALL("f", L("t"))]
        cases.append(product(f"batches{n}-{version}-{sfpf}-{dfpf}", rule, luac.compile_program(body, version, fpf=sfpf), version, rng, sfpf,
                             dialect(81, fpf=dfpf), limit=1 << 20))
    return cases


def far_constructors(rng, rule):
    """Constructors behind many local variables, where the registers are nearly used up."""
    cases = []
    for version in (80, 81):
        for place in (100, 125, 126, 190, 196, 198, 200, 220):
            for n, end in ((3, True), (5, True), (6, True), (6, False)):
                sfpf, dfpf = rng.choice([(5, 3), (3, 5), (7, 2), (50, 4), (4, 50), (8, 6)])
                items = list_of(n) + ([("item", OPEN("g", N(3)) if rng.random() < 0.7 or version == 80 else ("vararg", "open"))] if end else [])
                body = [("local", [f"r{i}" for i in range(place)], []), ("local", ["t"], [("table", items)]), CALL("f", L("t"))]
                cases += handmade(rng, rule, [(f"high{place}-{n}-{version}-{sfpf}-{dfpf}", body)], version, version == 81, 3 if version == 81 else 0, sfpf, dfpf)
    return cases


def c14(rng, scale):
    cases = programs(rng, "C14", int(45 * scale), ["table"], version=None, fpfs=PAGES, items=(None, None, 0, 3, 5, 9), limit=3000)
    specials = {
        "plain": {}, "call": {2: ("item", VALUE("f", N(1)))}, "global": {0: ("item", G("g")), 5: ("item", G("g"))},
        "and": {1: ("item", ("and", G("g"), ("or", G("h"), N(3)))), 7: ("item", ("or", VALUE("f"), N(2)))},
        "cmp": {3: ("item", ("cmp", "LT", N(1), G("g"), True)), 4: ("item", ("cmp", "EQ", G("h"), N(2), False))},
        "nested": {2: ("item", ("table", list_of(5))), 6: ("item", ("table", list_of(3) + [("pair", ("str", "s"), N(1))]))},
        "closure": {1: ("item", ("closure", {"params": [], "vararg": False, "body": [("return", [L("x")])]}))},
        "nil": {0: ("item", ("nil",)), 3: ("item", ("nil",)), 4: ("item", ("nil",)), 5: ("item", ("nil",))},
        "concat": {2: ("item", ("concat", [G("g"), ("str", "k"), G("h")])), 6: ("item", ("index", G("g"), ("str", "k")))},
        "method": {3: ("item", ("call", ("method", G("g"), "m"), [N(1)], "one"))},
    }
    bodies = []
    for version in (80, 81):
        for sfpf, dfpf in PAGES:
            s, d = sfpf or luac.FPF[version], dfpf or 50
            lengths = sorted({n for f in (s, d) for n in (f - 1, f, f + 1, 2 * f, 2 * f + 1, 3 * f)} | {0, 1, s + d, 2 * s + d + 1})
            lengths = [n for n in lengths if 0 <= n <= 160]
            for n in lengths:
                for end in ("", "open"):
                    kind = rng.choice(list(specials))
                    items = list_of(n, special=specials[kind])
                    if rng.random() < 0.3:
                        for at in range(rng.randint(1, 3)):
                            items.insert(rng.randint(0, len(items)), ("pair", rng.choice([("str", f"k{at}"), G("g"), N(1000 + at)]),
                                                                       rng.choice([N(5), G("g"), L("x")])))
                    if end:
                        items.append(("item", OPEN("f", N(3))))
                    body = [("local", ["x", "y"], [VALUE("g"), N(4)]), ("local", ["t"], [("table", items)]), CALL("f", L("t"), L("x"), L("y"))]
                    bodies.append((version, sfpf, dfpf, f"{kind}{n}{end} {version} {sfpf} {dfpf}", body))
    rng.shuffle(bodies)
    for version, sfpf, dfpf, name, body in bodies[:int(50 * scale)]:
        cases += handmade(rng, "C14", [(name, body)], version, False, 0, sfpf, dfpf)
    # as many batches as SETLIST can number, and more
    for version, n, dfpf in ((80, 300, 1), (81, 300, 1), (80, 510, 1), (81, 511, 1), (80, 513, 1), (81, 600, 1), (81, 1023, 2), (80, 1022, 2)):
        body = [("local", ["t"], [("table", list_of(n + rng.randrange(-1, 2)))]), CALL("f", L("t"))]
        cases.append(product(f"pages{n}-{version}-{dfpf}", "C14", luac.compile_program(body, version), version, rng, None, dialect(81, fpf=dfpf), limit=90000))
    return cases + pages(rng, "C14") + far_constructors(rng, "C14") + constructors(rng, "C14") + high(rng, "C14", int(6 * scale), ["table", "rich"], None, ((5, 3), (3, 5), (7, 2), (50, 4), (4, 50), (8, 6))) \
        + long_code(rng, "C14", [4300], rng.sample(LONG, 2), (81,))


def c15(rng, scale):
    cases = programs(rng, "C15", int(50 * scale), ["vararg"], args=(0, 1, 2, 4))
    bodies = []
    for fixed in range(4):
        params = ["a", "b", "c"][:fixed]
        show = CALL("f", *([L(p) for p in params] + [L("arg")]))
        for given in (0, 1, 2, 3, 5):
            values = [N(10 + i) if i % 2 else G("g") for i in range(given)]
            uses = {
                "plain": [show], "assigned": [("assign", L("arg"), N(1)), show],
                "branch": [("if", [(VALUE("c"), [show])], [CALL("h", L("arg"))]), show],
                "loop": [("while", VALUE("c"), [show]), CALL("h", L("arg"))], "start": [("repeat", [show], VALUE("c"))],
                "forin": [("forin", ["k", "v"], [L("arg")], [CALL("f", L("k"), L("v"))])],
                "captured": [("local", ["q"], [("closure", {"params": [], "vararg": False, "body": [("return", [L("arg")])]})]), CALL("f", L("q")), show],
                "index": [CALL("f", ("index", L("arg"), N(1)), ("index", L("arg"), N(2)))],
            }
            for use, body in uses.items():
                bodies.append((f"{use} {fixed} {given}", [
                    ("local", ["q"], [("closure", {"params": params, "vararg": True, "body": body + [("return", [L(p) for p in params])]})]),
                    CALL("h", ("call", L("q"), values, "one")), ("call", ("call", L("q"), values + [OPEN("g")], "one"))]))
    for fixed in (7, 31, 60, 120, 200, 230):
        params = [f"p{i}" for i in range(fixed)]
        for given in (0, 3, fixed - 1, fixed + 2):
            if given > 60:
                continue
            body = [CALL("f", L("p0"), L(params[-1]), L("arg")), ("if", [(VALUE("c"), [CALL("h", L("arg"))])], None), ("return", [L(params[-1]), L("arg")])]
            bodies.append((f"many {fixed} {given}", [
                ("local", ["q"], [("closure", {"params": params, "vararg": True, "body": body})]),
                CALL("h", ("call", L("q"), [N(10 + i) for i in range(given)], "one"))]))
    cases += handmade(rng, "C15", bodies)
    for given in range(5):
        cases += handmade(rng, "C15", [(f"main{given}-{i}", [body]) for i, body in enumerate(
            [CALL("f", L("arg")), ("while", VALUE("c"), [CALL("f", L("arg"))]), ("return", [L("arg"), OPEN("f")])])], 80, True, given)
    return cases + c15_findings() + smallest(rng, "C15")


# --------------------------------------------------------------------------------------------------------------- findings

def finding(ident, rule, body, vararg=False, args=0):
    """A program the conversion is known to change; always the same bytes."""
    fn = luac.compile_program(body, 80, vararg)
    made = product(ident, rule, fn, 80, None, fmt=[0, 1, 4, 4, 4, 8, 0], source_format=[0, 1, 4, 4, 4, 8, 0], args=args, strict=True)
    return [made]


def c12_findings():
    return finding("finding-for-limit", "C12", [("for", "i", N(1), ("str", "x"), None, [CALL("f", L("i"))])]) + \
        finding("finding-for-step", "C12", [("for", "i", N(1), N(2), ("str", "x"), [CALL("f", L("i"))])])


def c13_findings():
    closure = ("closure", {"params": [], "vararg": False, "body": [("return", [L("k")])]})
    return finding("finding-loop-variable", "C13", [
        ("local", ["y"], [N(6)]), ("forin", ["k"], [("table", [("item", N(7))])], [("assign", L("y"), closure)]),
        CALL("h", ("call", L("y"), [], "one"))]) + \
        finding("finding-type", "C13", [("assign", G("type"), G("f")), ("forin", ["k"], [G("it")], [CALL("f", L("k"))])])


def c15_findings():
    return finding("finding-arg-n", "C15", [CALL("f", ("index", L("arg"), ("str", "n")))], True, 2)


# ---------------------------------------------------------------------------------------------------------------- C29

def wide_operands(rng, rule):
    """Operands of up to 49 bits where the translation counts with them."""
    cases = []
    layout = [[1, 6], [2, 8], [4, 25], [3, 25]]
    fmt = [0, 1, 4, 4, 8, 8, 0]
    big = (2 ** 9, 2 ** 12, 2 ** 16, 2 ** 20, 2 ** 24)
    far = (2 ** 48, -2 ** 48, 2 ** 49, 1 - 2 ** 49, 2 ** 31, -2 ** 31, 2 ** 20, -2 ** 20)
    for version in (80, 81):
        dia = dialect(version, layout=layout)
        codes = [(op, 0, x) for op in ("JMP", "FORLOOP") + (("TFORPREP",) if version == 80 else ("FORPREP",)) for x in far]
        codes += [(op, 0, abs(x)) for op in ("LOADK", "CLOSURE", "GETGLOBAL") + (("SETLIST", "SETLISTO") if version == 80 else ()) for x in far]
        codes += [(op, 0, x, y) for op in ("LOADNIL", "CALL", "RETURN", "TFORLOOP", "TAILCALL", "CONCAT", "SELF", "MOVE")
                  + (() if version == 80 else ("SETLIST", "VARARG")) for x in (0, 3) + big for y in (0, 3) + big]
        for ins in codes:
            try:
                data = chunk(function(code=[("NEWTABLE", 0, 0, 0), ins, ("RETURN", 0, 1, 0)], stack=40), version, fmt, dia)
            except Unencodable:
                continue
            out = dialect(81, layout=rng.choice((None, layout)), fpf=rng.choice((1, 7, 50, 2 ** 20)))
            cases.append(case(f"wide{len(cases)}", rule, fmt, settings_for(version, dia, out), data))
    return cases


def c29(rng, scale):
    """Chunks that claim more than they hold, and chunks that hold much."""
    cases = []
    # a count or length that lies, at each place that has one
    rich_one = function(code=[("LOADK", 0, 0), ("RETURN", 0, 1, 0)], consts=[b"text", 1.5, True], subs=[function(code=[("RETURN", 0, 1, 0)])],
                        lines=[1, 2], locals=[(b"x", 0, 2)], upnames=[])
    claims = [2 ** e + d for e in (12, 16, 20, 22, 24, 26, 28, 30) for d in (0,)] + [2 ** 31 - 1, 3 * 10 ** 8, 10 ** 7, 10 ** 6]
    wide = claims + [2 ** 32, 2 ** 33 + 1, 2 ** 40, 2 ** 48, 2 ** 62, 2 ** 63 - 1]
    for version in (80, 81):
        for iw, sw in ((4, 4), (8, 8), (4, 8), (8, 4)):
            fmt = [0, 1, iw, sw, 4, 8, 0]
            data = chunk(rich_one, version, fmt)
            for at in range(12, len(data)):
                for width in {iw, sw}:
                    for value in rng.sample(wide if width == 8 else claims, 3):
                        twisted = bytearray(data)
                        twisted[at:at + width] = value.to_bytes(width, "little")
                        if rng.random() < 0.3:
                            twisted += bytes(rng.randrange(200))
                        cases.append(case(f"claim{len(cases)}", "C29", random_format(rng, 0), default_settings(), twisted))
    # hostile bytes and settings of every kind
    cases += [dict(c, rule="C29", id="c01-" + c["id"]) for c in rng.sample(c01(rng, 0.3 * scale), int(300 * scale))]
    cases += wide_operands(rng, "C29")
    # much of one thing
    for version in (80, 81):
        for n in (3000, 30000):
            shapes = {
                "code": function(code=[("LOADK", i % 200, i % 3) for i in range(n)] + [("RETURN", 0, 1, 0)], consts=[b"a", 1.0, True], stack=220),
                "consts": function(consts=[rng.choice((True, None, 2.0, b"s")) for _ in range(n)]),
                "text": function(consts=[b"x" * n]),
                "subs": function(subs=[function(code=[("RETURN", 0, 1, 0)]) for _ in range(n // 30)]),
                "lines": function(code=[("LOADNIL", 0, 0, 0)] * n + [("RETURN", 0, 1, 0)], lines=list(range(n + 1))),
                "locals": function(locals=[(b"v", 0, 1)] * n),
            }
            if version == 80:
                shapes["loops"] = function(code=[("FORLOOP", 0, -1)] * (n // 30) + [("RETURN", 0, 1, 0)], stack=9)
                shapes["iterators"] = function(code=[("TFORLOOP", 0, 0, 100)] * (n // 30) + [("RETURN", 0, 1, 0)], stack=110)
                shapes["prepared"] = function(code=[("TFORPREP", 0, 0)] * (n // 30) + [("RETURN", 0, 1, 0)], stack=9)
                shapes["flushes"] = function(code=[("SETLIST", 0, 31)] * (n // 30) + [("RETURN", 0, 1, 0)], stack=40)
            else:
                shapes["flushes"] = function(code=[("SETLIST", 0, 50, 1)] * (n // 30) + [("RETURN", 0, 1, 0)], stack=60)
            for name, fn in shapes.items():
                s = default_settings(output=dialect(81, fpf=rng.choice((1, 2, 50))))
                cases.append(case(f"much-{name}-{n}-{version}", "C29", random_format(rng, 0), s, chunk(fn, version, random_format(rng, 0))))
    return [dict(c, kind="peak") for c in cases]


# ---------------------------------------------------------------------------------------------------------------- C27

#: the format of the interpreter that runs the conversions
NATIVE = [0, 1, 4, 8, 4, 8, 0]


def witness(c, ident, rng):
    """The same program for the real interpreter, which flushes 50 fields at a time."""
    return dict(c, id=ident, rule="C27", kind="witness", fmt=NATIVE, dfpf=50, set=[c["set"][0], c["set"][1], dialect(81)],
                args=rng.choice((c["args"], c["args"], 0, 3)), seed=rng.randrange(1, 2 ** 31 - 1))


def c27(rng, scale):
    """Programs of all kinds for the real interpreter."""
    cases = []
    families = [(name, lambda rng, scale, f=family: f(rng, 0.7 * scale / 2), most)
                for name, family, most in (("c11", c11, 40), ("c12", c12, 30), ("c13", c13, 30), ("c14", c14, 40), ("c15", c15, 30), ("c16", c16, 40),
                                           ("c18", c18, 40))]
    families.append(("every", lambda rng, scale: constructors(rng, "C27"), 25))
    families.append(("rich", lambda rng, scale: rich(rng, "C27", int(12 * scale), None, ((None, None), (3, 50), (7, 50))), 12))
    families.append(("high", lambda rng, scale: high(rng, "C27", int(8 * scale), ["for", "forin", "table", "rich", "branch", "vararg"]), 8))
    families.append(("for high", lambda rng, scale: high(rng, "C27", int(3 * scale), ["for"], 80), 3))
    families.append(("many", lambda rng, scale: many_variables(rng, "C27"), 18))
    families.append(("far", lambda rng, scale: far_constructors(rng, "C27"), 6))
    families.append(("first", lambda rng, scale: constructors(rng, "C27", ("EQ", "LT", "LE"), ("first",)), 15))
    families.append(("branching", lambda rng, scale: constructors(rng, "C27", ("EQ", "LT", "LE", "and", "or")), 15))
    for name, family, most in families:
        found = [c for c in family(rng, scale) if c.get("kind") == "run" and not c["strict"] and len(c["in"]) < 6000]
        for c in rng.sample(found, min(len(found), int(most * scale))):
            cases.append(witness(c, f"{name}-{len(cases)}-{c['id']}", rng))
    return cases
