"""The checks: for each property, which executions of the real code are recorded, what of
them is recorded, and which specification judges them."""
import itertools
import json
import os
import re

from . import core
from .gen import *

CHECKS = {}
REPLAYS = {}          # how a recorded job is judged again, where replay() does not know


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


# --------------------------------------------------------------- judging
def judge_rec(run, streams, snap="", keep=None, errk=(), px=False, nout=None, limit_ms=20000, kind="rec", tag=""):
    """Runs the streams through the real renderer and has Conf.tla judge what was recorded."""
    jobs = [{"id": "%s%d" % (tag, i), "kind": kind, "b": b, "snap": snap, "px": px, "keep": keep or {"all": 1}}
            for i, b in enumerate(streams)]
    if kind == "img":
        for j in jobs:
            j["grid"] = False
    return judge_jobs(run, jobs, errk, nout, limit_ms)


def judge_jobs(run, jobs, errk=(), nout=None, limit_ms=20000):
    obs = core.observe(run, jobs, limit_ms)
    lines, ids, byid = [], [], {}
    for j in jobs:
        o = obs[j["id"]]
        byid[j["id"]] = j
        c = core.crashed(o)
        if c:
            core.violation(run, "the code under test ended: %s on %s" % (c, hexs(j["b"])), j, o)
            continue
        lines.append(json.dumps({"id": j["id"], "b": j["b"], "keep": j["keep"], "errk": list(errk), "ev": o["ev"],
                                 "err": [e for e in o["err"] if e[0] in errk],
                                 "qr": "Cancel" in j["keep"].get("devs", []),
                                 "nout": o["nout"] if nout is None else (-1 if not nout else o["nout"])}))
        ids.append(j["id"])
    notes = {}
    for m in core.judge(run, "Conf", "Conf.cfg", lines, ids, notes=notes):
        report(run, m, byid[m["job"]])
    return notes


def report(run, m, job):
    want, got = m.get("want"), m.get("got")
    for k in m["mismatch"]:
        if isinstance(want, dict) and isinstance(got, dict) and k in want and k in got:
            want, got = want[k], got[k]
    core.violation(run, "%s at byte %s of %s: the specification has %s, the code %s" % (
        "/".join(map(str, m["mismatch"])), m["at"], hexs(job["b"]), short(want), short(got)), job, m)


def judge_parse(run, streams, tag="p"):
    jobs = [{"id": "%s%d" % (tag, i), "kind": "parse", "b": b} for i, b in enumerate(streams)]
    obs = core.observe(run, jobs)
    lines, ids, byid = [], [], {}
    for j in jobs:
        o = obs[j["id"]]
        byid[j["id"]] = j
        if core.crashed(o):
            core.violation(run, "the code under test ended: %s on %s" % (core.crashed(o), hexs(j["b"])), j, o)
            continue
        lines.append(json.dumps({"id": j["id"], "b": j["b"],
                                 "cmds": [{k: c[k] for k in ("k", "c", "d", "bc", "bd")} for c in o["cmds"]]}))
        ids.append(j["id"])
    for m in core.judge(run, "ConfParser", "ConfParser.cfg", lines, ids):
        report(run, m, byid[m["job"]])
    return obs


def hexs(b):
    s = bytes(b).hex()
    return s if len(s) < 240 else s[:240] + "..(%d bytes)" % len(b)


def short(x):
    s = json.dumps(x)
    return s if len(s) < 300 else s[:300] + ".."


def dedup(streams):
    return [list(t) for t in dict.fromkeys(tuple(s) for s in streams)]


def note_streams(run, streams):
    run.notes["streams"] = run.notes.get("streams", 0) + len(streams)
    for s in streams[:: max(1, len(streams) // 3)][:3]:
        run.sample(hexs(s))


# ---------------------------------------------------------------- framing
PARSER_MODELS = [("MC_Parser1.cfg", [27, 29, 64, 40, 65, 24], 7)]


@check("C01")
def c01(run):
    g = G(run.rng)
    core.model_check(run, "MC_Parser", "MC_Parser1.cfg")
    streams = []
    # every stream over small alphabets that reach every rule of framing
    for alpha, n in (([27, 64, 65, 24, 10], run.scale(5, 6)), ([29, 107, 0, 65, 2, 97], run.scale(5, 6)),
                     ([27, 42, 33, 1, 0, 65], run.scale(5, 6)), ([29, 40, 107, 76, 3, 0], run.scale(5, 6)),
                     ([29, 86, 0, 65, 1], run.scale(5, 6)), ([29, 118, 48, 1, 0], run.scale(4, 6))):
        for k in range(n + 1):
            streams += [list(t) for t in itertools.product(alpha, repeat=k)]
    # each opener followed by every operand byte, and by pairs of operands, cut at every place
    for o in OPENERS:
        for x in range(256):
            streams.append(list(o) + [x, 65, 66])
        for _ in range(run.scale(10, 60)):
            s = list(o) + [g.edge() for _ in range(9)] + list(g.r.choice(OPENERS)) + [g.edge()]
            streams += [s[:k] for k in range(len(o), len(s) + 1)]
    for x in range(256):
        for lead in (ESC, GS, FS, DLE, CAN):
            streams.append([65, lead, x, 66, 10])
        streams += [[GS, 40, x, 2, 0, 48, 49, 66], [GS, 56, x, 3, 0, 0, 0, 48, 48, 7, 66], [ESC, 99, x, 1, 66]]
    for _ in range(run.scale(1500, 20000)):
        streams.append(g.stream(g.r.randint(1, 8), g.any))
    for _ in range(run.scale(500, 5000)):
        streams.append(g.stream(g.r.randint(1, 10), lambda: list(g.r.choice(OPENERS)), lambda: [g.edge()]))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_parse(run, streams)


@check("C02")
def c02(run):
    g = G(run.rng)
    core.model_check(run, "MC_Parser", "MC_Parser1.cfg")
    follow = [[ESC, 0x40], [10], [65, 66], [ESC, 0x64, 3], [GS, 0x6B, 2, 49, 0], [FS, 1], [9, 9], []]
    streams = []
    for _ in range(run.scale(2500, 30000)):
        kind = g.r.randrange(8)
        if kind == 0:
            n = g.r.randint(1, 5)
            m = g.pick(0, 1, 32, 33, 2, 255)
            c = [ESC, 0x2A, m, n, 0] + g.payload(n * (3 if m in (32, 33) else 1))
        elif kind == 1:
            w, h = g.r.randint(1, 3), g.r.randint(1, 5)
            c = [GS, 0x76, 0x30, g.edge(), w, 0, h, 0] + g.payload(w * h)
        elif kind == 2:
            n = g.r.randint(0, 20)
            c = g.gsl(g.pick(67, 83, 112, 49, 64, g.byte()), g.payload(n), g.chance(.5), g.pick(48, 48, g.byte()))
        elif kind == 3:
            c = g.gsk(g.pick(48, 49, 50, 51, 52, 53, 54, 47, 55), g.pick(80, 81, 82, 65, 66, 67, g.byte()),
                      g.payload(g.r.randint(0, 20)))
        elif kind == 4:
            n = g.r.randint(0, 20)
            c = [GS, 0x6B, g.r.randint(65, 79), n] + g.payload(n)
        elif kind == 5:
            c = [GS, 0x6B, g.r.randint(0, 6)] + [x for x in g.payload(g.r.randint(0, 20)) if x] + [0]
        elif kind == 6:
            n = g.r.randint(0, 12)
            c = [GS, 0x28, 0x4E, n, 0] + g.payload(n)
        else:
            n = g.r.randint(0, 12)
            c = [GS, 0x28, 0x48, n + 2, 0, 48, 48] + g.payload(n)
        s = list(g.r.choice([[], [65], [ESC, 0x45, 1]])) + c + g.r.choice(follow) + g.r.choice(follow)
        streams.append(s)
    # declared lengths of every size around the places where they change meaning
    for n in list(range(0, 12)) + [254, 255, 256, 257, 258, 511, 512, 513]:
        for extra in ([], [ESC, 0x40, 65], [65]):
            streams.append([GS, 0x28, 0x6B, n & 255, n >> 8, 49, 80] + [ESC] * max(0, n - 2) + extra)
            streams.append([GS, 0x28, 0x4C, n & 255, n >> 8, 48, 112] + [GS] * max(0, n - 2) + extra)
            streams.append([GS, 0x38, 0x4C, n & 255, n >> 8, 0, 0, 48, 112] + [27] * max(0, n - 2) + extra)
            streams.append([GS, 0x38, 0x4C, n & 255, n >> 8, 0, 0, 48, 112] + [27] * max(0, n - 3))
            streams.append([GS, 0x28, 0x4E, n & 255, n >> 8] + [27, 64] * (n // 2) + [10] * (n % 2) + extra)
            streams.append([ESC, 0x2A, 33, n & 255, n >> 8] + [27, 64, 10] * n + extra)
            streams.append([ESC, 0x2A, 1, n & 255, n >> 8] + [29] * n + extra)
            streams.append([GS, 0x76, 0x30, 0, n & 255, n >> 8, 1, 0] + [29] * n + extra)
            streams.append([GS, 0x76, 0x30, 0, 1, 0, n & 255, n >> 8] + [27] * n + extra)
            if n < 256:
                streams.append([GS, 0x6B, 73, n] + [27] * n + extra)
            streams.append([GS, 0x6B, 4] + [27] * n + [0] + extra)
    # payloads longer than what two bytes can declare
    for n in (65535, 65536, 65537, 70000):
        streams.append([GS, 0x38, 0x4C] + [(n >> s) & 255 for s in (0, 8, 16, 24)] + [48, 112] + [27] * (n - 2) + [ESC, 0x40, 65])
    for w, h in ((128, 513), (255, 258), (256, 257), (513, 128), (2, 32768), (1, 65535), (257, 255), (256, 256)):
        for tail in ([ESC, 0x40, 65], [65, 10]):
            streams.append([GS, 0x76, 0x30, 0, w & 255, w >> 8, h & 255, h >> 8] + [27] * (w * h) + tail)
    for n in (21845, 21846, 32768, 43691, 65535):
        streams.append([ESC, 0x2A, 33, n & 255, n >> 8] + [29] * (3 * n) + [ESC, 0x40, 65])
    streams = dedup(streams)
    note_streams(run, streams)
    judge_parse(run, streams)


# ------------------------------------------------- models of the renderer
def behaviours(run, name, depth, deeper, limit):
    """Checks MC_Renderer over an alphabet, and returns streams of its longest behaviours
    (all of them when there are no more than limit) for the implementation to run."""
    cfg = "MC_%s.cfg" % name
    streams = core.model_check(run, "MC_Renderer", cfg, {"Depth": depth})
    if not run.quick:
        with open(os.path.join(core.SPEC, cfg)) as f:
            alone = "T" + cfg          # the deeper run prints nothing
            text = f.read().replace("Told ", "")
        path = os.path.join(run.work, alone)
        with open(path, "w") as f:
            f.write(re.sub(r"Depth = \d+", "Depth = %d" % deeper, text))
        core.model_check(run, "MC_Renderer", path)
    run.notes["model"] = {"alphabet": name, "depth": depth if run.quick else deeper, "behaviours": len(streams)}
    streams.sort()
    if len(streams) > limit:
        streams = run.rng.sample(streams, limit)
    run.notes["behaviours_replayed"] = run.notes.get("behaviours_replayed", 0) + len(streams)
    return streams


# ------------------------------------------------------------- text style
TEXT_STYLE = ["t", "f", "cw", "ch", "bw", "bh", "b", "i", "u", "s", "sw", "sh", "inv", "ud", "bg", "fg"]
STYLE_OPS = [[ESC, 0x21], [ESC, 0x45], [ESC, 0x34], [ESC, 0x2D], [ESC, 0x47], [ESC, 0x7B], [ESC, 0x4D],
             [ESC, 0x72], [GS, 0x42], [GS, 0x21], [GS, 0x62]]
ALL_ON = ([ESC, 0x45, 1, ESC, 0x34, 1, ESC, 0x2D, 2, ESC, 0x47, 1, ESC, 0x7B, 1, ESC, 0x4D, 1, ESC, 0x72, 1,
           GS, 0x42, 1, GS, 0x21, 0x21])


@check("C05")
def c05(run):
    g = G(run.rng)
    streams = behaviours(run, "Style", 3, 5, run.scale(3000, 30000))
    for o in STYLE_OPS:
        for x in range(256):
            for base in ([], ALL_ON):
                streams.append(base + o + [x, 97, 98, 10])
    for fn in (48, 49, 50, 51, 0, 1, 2):
        for x in range(256):
            streams.append([GS, 0x28, 0x4E, 2, 0, fn, x, 97, 10])
            streams.append([GS, 0x28, 0x4E, 3, 0, fn, x, g.pick(48, 49, 0, 1), 97, 10])
        for base in ([], ALL_ON):               # the effects with fewer and with more bytes than they need
            for n in range(6):
                streams.append(base + [GS, 0x28, 0x4E, n, 0] + ([fn] + [g.pick(48, 49, 50) for _ in range(n)])[:n] + [97, 10])
                streams.append([GS, 0x28, 0x4E, 3, 0, fn, 50, 1] + [GS, 0x28, 0x4E, n, 0] + ([fn, 48, 50, 49, 48, 0])[:n] + [97, 10])
    for a, b in itertools.permutations(STYLE_OPS, 2):
        for _ in range(run.scale(4, 20)):
            streams.append(a + [g.edge(), 97] + b + [g.edge(), 98] + a + [g.edge(), 99, 10])
    for o in STYLE_OPS:             # the text of a barcode has the style of the text around it, but for the font
        for x in (0, 1, 2, 48, 49, 50, 97, 255, g.edge(), g.edge()):
            for base in ([], ALL_ON):
                streams.append(base + o + [x, GS, 0x48, g.pick(1, 2, 3), GS, 0x66, g.pick(0, 1, 2), GS, 0x6B, 5, 49, 50, 0, 97, 10])
    def words():
        return g.word(1, 3) + g.one([10], [32], [])
    for _ in range(run.scale(2500, 25000)):
        streams.append(g.stream(g.r.randint(2, 14), words, words, g.style, g.style, g.style, g.quiet, g.feed,
                                g.justify, g.barset, lambda: [ESC, 0x40], lambda: [10]))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, keep={"kinds": ["text"], "f": {"text": ["s"]}, "span": TEXT_STYLE})
    from . import props_out
    props_out.drawn(run, streams, props_out.dressed(g, [[97, 98], [ESC, 0x2D, 1, 97, 32, 98], [ESC, 0x47, 1, GS, 0x21, 0x11, 97]], run.scale(.4, 1)))


# -------------------------------------------------------------------- reset
@check("C06")
def c06(run):
    g = G(run.rng)
    probe = ([65, 66, 67, 32, 68, 9, 69, 10] + [GS, 0x6B, 2] + list(b"123456789012") + [0] +
             [GS, 0x76, 0x30, 0, 1, 0, 2, 0, 0xF0, 0x0F] + [GS, 0x28, 0x4C, 6, 0, 48, 69, 65, 65, 1, 1] +
             [GS, 0x28, 0x4C, 6, 0, 48, 85, 65, 65, 1, 1] + [GS, 0x28, 0x4C, 2, 0, 48, 50] +
             [GS, 0x28, 0x6B, 3, 0, 49, 81, 48] + [ESC, 0x24, 40, 0, 65, 10, 0xE9, 0x23, 10])
    streams = behaviours(run, "Reset", 3, 5, run.scale(3000, 30000))
    settings = [g.style, g.charset, g.justify, g.spacing, g.motion, g.position, g.tabs, g.pages, g.stored, g.stored,
                g.barset, g.code2dset, lambda: g.word(1, 9), lambda: [10]]
    for s in STYLE_OPS + [[ESC, 0x74], [ESC, 0x52], [ESC, 0x61], [ESC, 0x33], [GS, 0x68], [GS, 0x77], [GS, 0x48],
                          [GS, 0x66], [ESC, 0x54]]:
        for x in (0, 1, 2, 3, 5, 48, 49, 50, 97, 255, g.edge()):
            streams.append(s + [x, ESC, 0x40] + probe)
            streams.append(s + [x, 97, 98, ESC, 0x40] + probe)
    for m, fn in [(48, 65), (48, 66), (48, 67), (48, 68), (48, 69), (48, 70), (49, 65), (49, 67), (49, 69), (50, 65),
                  (51, 67), (51, 71), (52, 67), (52, 71), (52, 72), (53, 66), (53, 67), (53, 69), (54, 66), (54, 67)]:
        for _ in range(3):
            streams.append(g.gsk(m, fn, [g.edge() for _ in range(3)]) + [ESC, 0x40] + probe)
    for d in ([50, 50], [51, 51]):
        streams.append(g.gsl(49, d) + [ESC, 0x40] + probe)
        streams.append([GS, 0x50, 20, 30] + g.gsl(1, d) + [GS, 0x50, 200, 10, ESC, 0x40] + probe)
    streams.append(g.gsk(49, 80, [48] + list(b"abc")) + [ESC, 0x40] + probe)
    for x, y in [(0, 0), (0, 1), (1, 0), (255, 255), (0, 255), (127, 128)] + [(g.byte(), g.byte()) for _ in range(run.scale(12, 200))]:
        for fn in (67, 68, 83, 84):                                 # pictures under every kind of key
            d = g.gsl(fn, [48, x, y, 1, 8, 0, 1, 0, 49] + g.bytes(8 if fn in (68, 84) else 1))
            streams.append(d + [ESC, 0x40] + g.gsl(69, [x, y, 1, 1]) + g.gsl(85, [x, y, 1, 1]) + g.one([], probe))
    for x, y in itertools.product((0, 1, 64, 255), repeat=2):       # within a page
        for d in range(4):
            for more in ([], [97, 10], [ESC, 0x24, 9, 0, 97], [97, ESC, 12]):
                streams.append(g.one([], [98, 10], [98, 10, ESC, 0x24, 50, 0]) + [ESC, 0x4C, ESC, 0x57, x, 0, y, 0, 64, 1, 64, 0, ESC, 0x54, d] +
                               more + [ESC, 0x40] + g.one([97, 10], probe))
    for _ in range(run.scale(900, 9000)):
        pre = g.stream(g.r.randint(1, 12), *settings) if g.chance(.8) else g.stream(g.r.randint(1, 10), g.any)
        post = g.stream(g.r.randint(1, 8), *settings) if g.chance(.3) else []
        streams.append(pre + [ESC, 0x40] + (probe if g.chance(.7) else []) + post)
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, snap="gtbqps", px=True, keep={"after": "Initialize"})


# ------------------------------------------------------------------- layout
LAYOUT_SPAN = ["t", "cw", "ch", "d"]


def layout_streams(g, n, *more):
    out = []
    for _ in range(n):
        fs = [lambda: g.line(g.r.randint(1, 90)), lambda: g.line(g.r.randint(1, 30)), lambda: g.word(40, 130),
              lambda: [10], lambda: [9], lambda: [13], g.size, g.spacing, lambda: g.size(2),
              lambda: [ESC, 0x4D, g.pick(0, 1)], lambda: [ESC, 0x21, g.byte()]]
        out.append(g.stream(g.r.randint(1, 12), *fs, *more))
    return out


@check("C07")
def c07(run):
    g = G(run.rng)
    streams = behaviours(run, "Layout", 4, 6, run.scale(3000, 30000))
    # words of every length around the width of the line, after every amount of text
    for w in (1, 2, 3, 49, 50, 51, 52, 99, 100, 101, 102, 103):
        for lead in (0, 1, 2, 3, 25, 47, 48, 49, 50, 51):
            for tail in ([], [32, 98], [10, 98]):
                streams.append([97] * max(0, lead - 1) + ([32] if lead else []) + [99] * w + tail)
    for cw in range(8):
        n = 50 // (cw + 1)
        for k in range(max(1, n - 1), n + 3):
            streams.append([GS, 0x21, cw * 16 + (7 - cw)] + [97] * k + [32] + [98] * k + [10, 99])
    # page areas the characters fill exactly: the word that just fits, and its neighbours
    for font, cell in ((0, 12), (1, 9)):
        for mag in (0, 1, 2):
            for n in (1, 2, 5, 8):
                for slack in (0, -1, 1):
                    w = n * cell * (mag + 1) + slack
                    for lead in ([], [97], [97, 32], [97, 98, 32]):
                        for k in (n - 1, n, n + 1, 2 * n):
                            streams.append([ESC, 0x4C, ESC, 0x57, 0, 0, 0, 0, w & 255, w >> 8, 144, 1, ESC, 0x4D, font,
                                            GS, 0x21, mag * 16] + lead + [99] * k + g.one([], [32, 100]) +
                                           [10, 101, 12])
    for x in range(0, 640, run.scale(13, 3)):
        streams.append([ESC, 0x24, x & 255, x >> 8] + [97] * 3 + [32] + [98] * 60 + [10, 99])
        streams.append([97, ESC, 0x24, x & 255, x >> 8, 98, 9, 99, 9, 100, 10])
    for k in range(60):
        streams.append([97] * k + [9, 98, 9, 99, 10, 100])
    # every stop, set to every distance, used from every place
    for n in (0, 1, 2, 8, 20):
        every = sum(([ESC, 0x44, n, k] for k in range(32)), [])
        streams.append(every + [9, 97, 9, 9, 98, 10] + [97, 9] * 34 + [10])
        for k in (0, 1, 2, 15, 30, 31, 32, 255):
            every = sum(([ESC, 0x44, 1, i] for i in range(32) if i != k), [])
            for lead in (0, 1, 2, 14, 15, 16, 29, 30, 31, 32):
                streams.append(every + [ESC, 0x44, n, k] + [97] * lead + [9, 98, 9, 99, 10])
                streams.append(every + [ESC, 0x44, n, k] + [9] * lead + [98, 9, 99, 10])
    # every byte in the middle of words, where it fits and where it does not
    for ct in (0, 2, 16, 19, 255):
        for x in range(256):
            if x not in (10, 12, 24, 27, 28, 29, 16):
                streams.append([ESC, 0x74, ct, 65, 66, x, 67, 68, 10] + g.one([], [97] * g.r.randint(46, 50) + [x, 98, 99, x, 10]))
    for u in "\u0085\u00a0\u00ad\u1680\u180e\u2000\u2003\u2007\u2009\u200a\u200b\u2028\u2029\u202f\u205f\u2060\u3000\ufeff":
        e = list(u.encode())
        streams.append([ESC, 0x74, 255, 65, 66] + e + [67, 68, 10])
        for k in (47, 48, 49, 50):
            streams.append([ESC, 0x74, 255] + [97] * k + e + [98, 99] + e + e + [100, 10])
    for t in itertools.product((97, 32, 9, 10, 13), repeat=run.scale(4, 5)):
        streams.append(list(t) + [98])
    for s in itertools.product(([97] * 30, [32], [98] * 21, [10], [GS, 0x21, 0x11], [9]), repeat=run.scale(3, 4)):
        streams.append(sum(s, []))
    streams += layout_streams(g, run.scale(1500, 12000), g.position, g.tabs, lambda: [0x85], lambda: [0xA0, 97],
                              lambda: [ESC, 0x74, g.pick(0, 2, 255)], g.justify)
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, keep={"kinds": ["text"], "f": {"text": ["s", "mh"]}, "span": LAYOUT_SPAN})
    from . import props_out
    props_out.drawn(run, streams, props_out.dressed(g, [[97] * 51 + [32, 98, 98], [97, 9, 98]], run.scale(.3, 1)))


@check("C08")
def c08(run):
    g = G(run.rng)
    streams = behaviours(run, "Justify", 4, 6, run.scale(3000, 30000))
    codes = []
    for j in range(256):
        streams.append([ESC, 0x61, j] + [97] * (j % 53 + 1) + [10] + g.raster(8, 4))
    for j in (0, 1, 2):
        for k in range(0, 53):
            streams.append([ESC, 0x61, j] + [97] * k + [10, 98, 10])
            streams.append([ESC, 0x61, j] + [97] * k + [32] + [98] * g.r.randint(1, 60) + [10])
        for w in list(range(1, 12)) + [70, 75, 76, 77, 78, 80, 90]:
            streams.append([ESC, 0x61, j, GS, 0x76, 0x30, 0, w, 0, 1, 0] + [255] * w + [97, 10])
            streams.append([ESC, 0x61, j, GS, 0x76, 0x30, 3, w, 0, 1, 0] + [255] * w + [97, 10])
        for w in range(7):
            for k in (1, 3, 9, 12):
                streams.append([ESC, 0x61, j, GS, 0x77, w, GS, 0x48, 2, GS, 0x6B, 4] + [65 + (i % 26) for i in range(k)] + [0, 97, 10])
        for m in (0, 1, 32, 33):
            streams.append([ESC, 0x61, j, ESC, 0x2A, m, 9, 0] + [255] * 27 + [97, 10])
        for size in range(1, 17):
            qr = lambda: qr_setup(g, g.pick(None, 1, 2, 3), g.pick(None, 0, 3), size) + qr_store(g, qr_data(g, g.pick(1, 4, 9, 20))) + QR_PRINT
            codes.append([ESC, 0x61, j] + qr() + [97, 10])
            codes.append([ESC, 0x61, g.r.randrange(3)] + qr() + [ESC, 0x61, j] + QR_PRINT + [97, 10])
            codes.append([ESC, 0x4C, ESC, 0x57, 0, 0, 0, 0, 250, 0, 250, 0, ESC, 0x61, j] + qr() + [97, 10, 12])
    # areas of even and odd width, lines of even and odd width
    for w in range(90, 90 + run.scale(26, 60)):
        for j in (1, 2):
            for f in (0, 1):
                k = g.r.randint(1, 8)
                streams.append([ESC, 0x4C, ESC, 0x57, 0, 0, 0, 0, w, 0, 90, 0, ESC, 0x4D, f, ESC, 0x61, j] + [97] * k + [10] + [98] * (k + 1) +
                               [10] + g.raster(3, 2) + [GS, 0x77, 2, GS, 0x6B, 5, 49, 50, 0, 12])
    for _ in range(run.scale(1200, 10000)):
        streams.append(g.stream(g.r.randint(2, 12), g.justify, g.justify, lambda: g.line(g.r.randint(1, 80)),
                                lambda: [10], g.size, g.raster, g.column, g.barcode, g.barset,
                                lambda: [ESC, 0x4D, g.pick(0, 1)], lambda: [ESC, 0x40], g.position))
    for _ in range(run.scale(150, 1500)):
        streams.append([ESC, 0x4C] + g.stream(g.r.randint(2, 10), g.justify, g.area, g.direction, g.line_, g.raster,
                                              g.barcode, lambda: [10]))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, keep={"kinds": ["text", "image", "gfx"], "span": ["t", "cw", "j"],
                                  "f": {"text": ["s", "off", "j"], "image": ["x", "w"]}})
    run.notes["streams_with_codes"] = len(codes)
    judge_rec(run, codes, snap="q", tag="q", keep={"kinds": ["gfx", "dev"], "devs": ["Cancel"], "ctx": {"q": ["sym", "pts"]}})
    from . import props_out
    props_out.drawn(run, streams, props_out.dressed(g, [[97, 98], g.raster(3, 3), [ESC, 0x2A, 33, 2, 0] + [255] * 6], run.scale(.4, 1)))


# ------------------------------------------------------------ paper position
@check("C09")
def c09(run):
    g = G(run.rng)
    streams = behaviours(run, "Paper", 3, 5, run.scale(3000, 30000))
    for x in range(256):
        streams.append([97, ESC, 0x64, x, 98, 10])
        streams.append([97, 10, 97, 10, ESC, 0x65, x, 98, 10])
        streams.append([ESC, 0x64, 9, ESC, 0x33, g.edge(), ESC, 0x65, x, 98, 10])
        streams.append([97, ESC, 0x4A, x, 98, 10])
        streams.append([ESC, 0x33, x, 97, 10, 98, 10])
        streams.append([GS, 0x56, x, 7, 97, 10])
        streams.append([GS, 0x50, x, g.edge(), ESC, 0x24, 100, 1, 97, 10])
        streams.append([GS, 0x50, g.edge(), x, ESC, 0x24, g.byte(), 0, 97, 10])
        streams.append([GS, 0x68, x, GS, 0x6B, 2] + list(b"123456789012") + [0, 97, 10])
        streams.append([ESC, 0x24, x, 0, 97, ESC, 0x24, x, 1, 98, 10])
    for w in sorted({1, 2, 75, 76, 77, 78, 100, 152, 153, 154, 200, 255, 256, 300} | set(range(1, 300, run.scale(40, 3)))):
        for h in (1, 3):            # images narrower and wider than the paper
            streams.append([97, 10, GS, 0x76, 0x30, g.pick(0, 1, 2, 3), w & 255, w >> 8, h, 0] + [g.byte()] * (w * h) + [97, 10])
            streams.append([97, 10, ESC, 0x2A, g.pick(0, 1, 32, 33), w & 255, w >> 8] + [g.byte()] * (w * 3) + [97, 10])
    # column images that just fit the line, or what is left of it, and that just do not
    for m, k in ((1, 1), (0, 2), (33, 1)):
        for x in (0, 1, 12, 100, 400, 608, 609, 700):
            for fit in (609 - x, 609):
                for w in {max(1, fit // k + n) for n in (-1, 0, 1, 2)} | {1}:
                    if x == 0 or m == 1 or w < 20:
                        streams.append([ESC, 0x24, x & 255, x >> 8, ESC, 0x2A, m, w & 255, w >> 8] + [g.byte()] * (w * (3 if m > 1 else 1)) +
                                       g.one([97], [10], [ESC, 0x2A, 0, 9, 0] + [255] * 9) + [98, 10])
    for _ in range(run.scale(1800, 15000)):
        streams.append(g.stream(g.r.randint(2, 14), g.feed, g.feed, g.spacing, g.raster, g.column, g.barcode, g.motion,
                                lambda: g.line(g.r.randint(1, 70)), lambda: [10], lambda: g.size(3), g.stored,
                                g.position, g.barset, lambda: [ESC, 0x40], lambda: [9], g.justify,
                                lambda: g.gsk(49, 81, [48])))
    for _ in range(run.scale(200, 1500)):
        streams.append(g.stream(g.r.randint(3, 14), g.pages, g.pages, g.feed, g.raster, g.line_, lambda: [12]))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, snap="gp", keep={"ctx": {"g": ["x", "y", "w", "vm", "hm"], "p": ["en"]},
                                             "f": {"text": [], "image": ["x", "y", "w", "h"]}})
    from . import props_out
    props_out.drawn(run, streams)


# ----------------------------------------------------------------- page mode
@check("C10")
def c10(run):
    g = G(run.rng)
    streams = behaviours(run, "Page", 4, 6, run.scale(3000, 30000))
    area = lambda x, y, w, h: [ESC, 0x57] + [b for n in (x, y, w, h) for b in (n & 255, n >> 8)]
    for d in range(256):
        streams.append([ESC, 0x4C] + area(10, 20, 200, 100) + [ESC, 0x54, d, 97, 10, 98, 12, 99, 10])
    for ds in itertools.product(range(4), repeat=run.scale(3, 4)):
        s = [ESC, 0x4C] + area(10, 20, 200, 100)
        for d in ds:
            s += [ESC, 0x54, 48 + d, 97, 10] + g.one([], area(g.byte(), g.byte(), g.byte(), g.byte()), [ESC, 0x24, 30, 0])
        streams.append(s + g.one([12], [ESC, 12], [ESC, 0x53], [ESC, 12, ESC, 0x53]) + [99, 10])
    for d in range(4):
        for op in ([ESC, 0x24], [GS, 0x24], [GS, 0x5C]):
            for n in (0, 1, 50, 100, 199, 200, 201, 300, 32767, 32768, 65535, 65436):
                streams.append([ESC, 0x4C] + area(10, 20, 200, 100) + [ESC, 0x54, d, 97] + op + [n & 255, n >> 8, 98, 10, 99, 12])
    for d in range(4):              # positions in and beyond an area set after turning
        for x, y in ((0, 0), (64, 40), (200, 7)):
            for op in ([ESC, 0x24], [GS, 0x24], [GS, 0x5C]):
                for n in (0, 1, 31, 32, 33, 42, 64, 65, 90, 96, 97, 200, 232, 300, 1000, 65500, 65535):
                    first = g.one([], area(32, 0, 64, 64), area(300, 200, 50, 9))
                    streams.append([ESC, 0x4C] + first + [ESC, 0x54, d] + area(x, y, 32, 64) + g.one([], [97]) + op + [n & 255, n >> 8, 98, 10, 99, 12])
    # everything that can be printed on a page, one after the other
    for d in range(4):
        for _ in range(run.scale(40, 300)):
            s = [ESC, 0x4C] + g.one(area(10, 20, 300, 200), area(0, 0, 40, 60), area(5, 600, 609, 30)) + [ESC, 0x54, d, GS, 0x48, g.r.randrange(4)]
            s += g.stream(g.r.randint(2, 5), g.barcode, g.barcode, lambda: g.gsk(49, 81, [48]), g.raster, g.column, g.justify,
                          lambda: g.column(60), lambda: [97], lambda: [ESC, 0x2A, 1, 255, 0] + [255] * 255, lambda: g.word(1, 30), lambda: [10],
                          lambda: [GS, 0x48, g.r.randrange(4)], lambda: g.gsl(112, [48, 1, 1, 49, 8, 0, 1, 0, 255]) + g.gsl(50, []))
            streams.append(s + [98, 10, 12, 99])
    for _ in range(run.scale(1800, 15000)):
        s = g.stream(g.r.randint(3, 16), g.pages, g.pages, g.pages, g.area, g.line_, g.line_, lambda: [10], g.raster,
                     g.column, g.barcode, g.justify, g.motion, g.spacing, g.feed, lambda: [12], lambda: g.size(2),
                     lambda: [ESC, 0x40], lambda: [9])
        streams.append(([ESC, 0x4C] if g.chance(.8) else []) + s)
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, snap="gp", keep={
        "kinds": ["page_begin", "page_end", "area", "render_page", "text", "image", "gfx", "end"],
        "span": ["t", "d"], "f": {"text": ["s", "off"], "image": ["x", "y", "w", "h"]},
        "ctx": {"g": ["x", "y"], "p": ["en", "la", "ra", "pa", "d", "pd"]}})
    from . import props_out
    props_out.drawn(run, streams, props_out.pages(g))


# ------------------------------------------------------------------- images
@check("C13")
def c13(run):
    g = G(run.rng)
    core.model_check(run, "MC_Images", "MC_Images.cfg")
    streams = []
    # every byte of a picture, in every mode
    for m in list(range(0, 4)) + [32, 33, 48, 49, 50, 51]:
        for x in range(256):
            streams.append([GS, 0x76, 0x30, m, 1, 0, 2, 0, x, 255 - x, 65, 10])
    for m in (0, 1, 32, 33):
        for x in range(256):
            streams.append([ESC, 0x2A, m, 2, 0, x, 255 - x, g.byte(), g.byte(), x, 1][:5 + 2 * (3 if m > 1 else 1)] + [65, 10])
    for m in range(256):
        streams.append([GS, 0x76, 0x30, m, 2, 0, 3, 0] + g.bytes(6) + [65, 10])
        streams.append([ESC, 0x2A, m, 3, 0] + g.bytes(9 if m in (32, 33) else 3) + [65, 10])
    # shapes, and pictures cut at every place
    for w in range(0, 6):
        for h in range(0, 10):
            streams.append([GS, 0x76, 0x30, g.pick(0, 1, 2, 3), w, 0, h, 0] + g.bytes(w * h) + [65, 10])
    for n in range(0, 26):
        for m in (0, 1, 32, 33):
            streams.append([ESC, 0x2A, m, n, 0] + g.bytes(n * (3 if m > 1 else 1)) + [65, 10])
    for s in ([GS, 0x76, 0x30, 0, 2, 0, 3, 0] + g.bytes(6), [ESC, 0x2A, 33, 2, 0] + g.bytes(6), [ESC, 0x2A, 0, 7, 0] + g.bytes(7)):
        streams += [s[:k] for k in range(3, len(s) + 1)]
    # pictures of more columns, rows and bytes than one byte, ten and eleven bits count
    for n in (255, 256, 257, 600, 1023, 1024, 1025, 2047, 2048, 2049, 4100)[::run.scale(1, 1)]:
        for m in (1, 33):
            streams.append([ESC, 0x2A, m, n & 255, n >> 8] + [g.pick(1, 255, 170)] * (n * (3 if m > 1 else 1)) + [65, 10])
        streams.append([GS, 0x76, 0x30, g.pick(0, 1, 2, 3), 1, 0, n & 255, n >> 8] + g.bytes(n) + [65, 10])
        if n < 300:
            streams.append([GS, 0x76, 0x30, g.pick(0, 3), n & 255, n >> 8, 2, 0] + g.bytes(2 * n) + [65, 10])
    streams.append([GS, 0x76, 0x30, 0, 1, 1, 1, 0] + g.bytes(257))
    streams.append([GS, 0x76, 0x30, 0, 1, 0, 1, 1] + g.bytes(257))
    streams.append([ESC, 0x2A, 0, 4, 1] + g.bytes(260))
    for _ in range(run.scale(1500, 12000)):
        streams.append(g.stream(g.r.randint(1, 6), g.raster, g.column, g.column, lambda: g.word(1, 6), lambda: [10],
                                lambda: [ESC, 0x7B, g.pick(0, 1)], g.justify, lambda: g.raster(8, 30), lambda: g.column(60)))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, px=True, errk=("G",),
              keep={"kinds": ["image"], "f": {"image": ["w", "h", "n", "px", "flow", "ud"]}})
    from . import props_out
    props_out.drawn(run, streams, props_out.dressed(g, [g.raster(2, 5), [ESC, 0x2A, 33, 3, 0] + g.bytes(9), [ESC, 0x2A, 0, 4, 0] + g.bytes(4)], run.scale(.5, 1)))


@check("C14")
def c14(run):
    g = G(run.rng)
    streams = behaviours(run, "Store", 3, 5, run.scale(3000, 30000))
    pic = lambda fn, k, x: g.gsl(fn, [48] + k + [1, 8, 0, 1, 0, 49, x])
    show = lambda k: g.gsl(69, k + [1, 1]) + g.gsl(85, k + [1, 1])
    K = [[65, 65], [65, 66], [66, 65]]
    ops = [lambda k, x: pic(67, k, x), lambda k, x: pic(83, k, x), lambda k, x: pic(68, k, x), lambda k, x: pic(84, k, x),
           lambda k, x: g.gsl(66, k), lambda k, x: g.gsl(82, k), lambda k, x: g.gsl(65, list(b"CLR")),
           lambda k, x: g.gsl(81, list(b"CLR")), lambda k, x: [ESC, 0x40],
           lambda k, x: g.gsl(112, [48, 1, 1, 49, 8, 0, 1, 0, x]), lambda k, x: g.gsl(50, [])]
    for c in itertools.product(range(len(ops)), repeat=run.scale(3, 4)):
        s = []
        for i in c:
            s += ops[i](g.r.choice(K), g.byte())
        for k in K:
            s += show(k)
        streams.append(s + g.gsl(2, []))
    # keys are two bytes, all of them told apart
    for x in range(256):
        ks = [[65, x], [65, x ^ 128], [65, x ^ (1 << g.r.randrange(8))], [x, 65], [x ^ 128, 65], [x, x]]
        for a, b in ((67, 83), (68, 84)):
            s = []
            for i, k in enumerate(ks):
                s += pic(g.pick(a, b), k, 1 << i) if a == 67 else g.gsl(g.pick(a, b), [48] + k + [1, 1, 0, 8, 0, 49, 1 << i])
            streams.append(s + sum((show(k) for k in ks), []) + g.gsl(g.pick(66, 82), ks[g.r.randrange(6)]) +
                           sum((show(k) for k in ks), []))
        d = [pic(g.pick(67, 68), k, 1 + i) + pic(g.pick(83, 84), k, 33 + i) for i, k in enumerate(([0, 0], [0, x], [x, 0], [x, x ^ 255]))]
        streams.append(sum(d, []) + sum((g.gsl(66, k) if x % 2 else g.gsl(82, k) for k in ([0, 0], [x, x ^ 255])), []) +
                       g.one([], [ESC, 0x40], g.gsl(65, list(b"CLR")), g.gsl(81, list(b"CLR"))) + sum((show(k) for k in ([0, 0], [0, x], [x, 0], [x, x ^ 255])), []))
    # pictures of many layers, of every colour, in every order
    for fn in (67, 68, 83, 84):
        for n in range(0, 8):
            for _ in range(run.scale(5, 40)):
                w, h = g.pick((1, 1), (8, 1), (8, 2), (3, 9))
                per = (-(-h // 8) * w) if fn in (68, 84) else (-(-w // 8) * h)
                cut = g.pick(0, 0, 0, 1, per)
                d = [48] + K[0] + [n, w, 0, h, 0] + sum(([g.pick(49, 50, 51, 52, 52, 48, 53, g.byte())] + g.bytes(per) for _ in range(n)), [])
                streams.append(g.gsl(fn, d[:len(d) - cut] if n else d) + show(K[0]))
    for n in range(0, 7):           # and as many of them put in the print buffer, printed on the paper and on pages
        for _ in range(run.scale(6, 40)):
            s = []
            for _ in range(n):
                fn, w, h = g.pick(112, 112, 113), g.pick(1, 8, 9), g.pick(1, 8, 9)
                per = (-(-h // 8) * w) if fn == 113 else (-(-w // 8) * h)
                s += g.gsl(fn, [48, g.pick(1, 2), g.pick(1, 2), g.pick(49, 50, 51, 52), w, 0, h, 0] + g.bytes(per))
            for page in ([], [ESC, 0x4C], [ESC, 0x4C, ESC, 0x54, g.r.randrange(4)]):
                again = g.one(g.gsl(50, []), g.gsl(2, []), [ESC, 12] + g.gsl(50, []), [ESC, 0x53] + g.gsl(50, []),
                              g.gsl(112, [48, 1, 1, 49, 8, 0, 1, 0, 0x81]) + g.gsl(50, []))
                streams.append(page + s + g.gsl(g.pick(50, 2), []) + again + [97, 10])
    for fn in range(256):
        streams.append(pic(67, K[0], 0xF0) + pic(83, K[0], 0x0F) + pic(112, K[0], 1) + g.gsl(fn, K[0] + [1, 1]) + show(K[0]) + g.gsl(50, []))
        streams.append(g.gsl(fn, [48, 65, 65, 1, 8, 0, 1, 0, 49, 0xA5]) + show(K[0]) + g.gsl(50, []))
        streams.append(g.gsl(fn, [48, 65, 65, 1, 8, 0, 1, 0, 49, 0xA5], True, g.pick(48, 0, 49)) + show(K[0]) + g.gsl(50, []))
    for fn in (67, 68, 83, 84, 112, 113):
        for w in (1, 7, 8, 9, 16, 17):
            for h in (1, 7, 8, 9, 17):
                col = fn in (68, 84, 113)
                per = (-(-h // 8) * w) if col else (-(-w // 8) * h)
                if fn >= 112:
                    s = g.gsl(fn, [48, g.pick(1, 2), g.pick(1, 2), 49, w, 0, h, 0] + g.bytes(per)) + g.gsl(50, [])
                else:
                    s = g.gsl(fn, [48, 65, 65, 2, w, 0, h, 0, 49] + g.bytes(per) + [50] + g.bytes(per)) + show(K[0])
                streams.append(s)
        # pictures of more columns and rows than eight, ten and eleven bits count
        for n in (255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 2051):
            for w, h in ((n, g.pick(1, 8, 9)), (g.pick(1, 8, 9), n)):
                per = (-(-h // 8) * w) if fn in (68, 84, 113) else (-(-w // 8) * h)
                wh = [w & 255, w >> 8, h & 255, h >> 8]
                if fn >= 112:
                    streams.append(g.gsl(fn, [48, 1, 1, 49] + wh + g.bytes(per)) + g.gsl(50, []))
                else:
                    streams.append(g.gsl(fn, [48, 65, 65, 1] + wh + [49] + g.bytes(per)) + show(K[0]))
        if fn >= 112:               # in the sizes a buffered picture asks for
            for x, y in itertools.product((0, 1, 2, 3, 4, 5, 6, 8, 16), repeat=2):
                streams.append(g.gsl(fn, [48, x, y, 49, 8, 0, 1, 0] + g.bytes(8 if fn == 113 else 1)) + g.gsl(50, []))
            for x in range(256):
                streams.append(g.gsl(fn, [48, x, g.pick(1, 2), 49, 2, 0, 1, 0] + g.bytes(2 if fn == 113 else 1)) + g.gsl(50, []))
                streams.append(g.gsl(fn, [48, g.pick(1, 2), x, 49, 2, 0, 1, 0] + g.bytes(2 if fn == 113 else 1)) + g.gsl(50, []))
        # printed in another size
        if fn in (67, 68, 83, 84):
            col, at = fn in (68, 84), 69 if fn < 80 else 85
            for x in range(256):
                w, h = g.pick(1, 2, 7, 8, 9), g.pick(1, 2, 3, 8, 9)
                y = g.pick(0, 1, 2, 3, 50, x)
                per = (-(-h // 8) * w) if col else (-(-w // 8) * h)
                s = g.gsl(fn, [48] + K[0] + [1, w, 0, h, 0, g.pick(49, 50, 51)] + g.bytes(per))
                streams.append(s + g.gsl(at, K[0] + [x, y]) + show(K[0]) + g.gsl(at, K[0] + [y, x]) +
                               g.gsl(at, K[0] + [x]) + g.gsl(at, K[0]) + g.gsl(at, K[0] + [2, 2, x]))
        # data cut at every place
        d = ([48, 1, 1, 49, 8, 0, 2, 0, 1, 2] if fn >= 112 else [48, 65, 65, 2, 8, 0, 1, 0, 49, 1, 50, 2])
        d = d if fn not in (68, 84, 113) else d[:-1] + [3] * 9
        for k in range(len(d) + 1):
            streams.append(g.gsl(fn, d[:k]) + show(K[0]) + g.gsl(2, []))
        for x in range(256):
            if fn >= 112:
                streams.append(g.gsl(fn, [48, 1, 1, 49, 8, 0, 2, 0, x, 255 - x]) + g.gsl(50, []))
                streams.append(g.gsl(fn, [48, 1, 1, x, 8, 0, 8, 0] + [1, 2, 4, 8, 16, 32, 64, 128]) + g.gsl(50, []))
            else:
                streams.append(g.gsl(fn, [48, 65, 65, 1, 8, 0, 1, 0, 49] + [x] * (8 if fn in (68, 84) else 1)) + show(K[0]))
    for _ in range(run.scale(1500, 12000)):
        streams.append(g.stream(g.r.randint(2, 12), g.stored, g.stored, g.stored, g.stored, lambda: g.word(1, 4),
                                lambda: [ESC, 0x40] if g.chance(.3) else [10], g.justify,
                                lambda: g.stored(fns=[112, 113, 50, 112])))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, px=True, snap="s", errk=("G",),
              keep={"kinds": ["image", "dev"], "devs": ["ClearBufferGraphics", "EndPrint", "Initialize"],
                    "f": {"image": ["w", "h", "n", "px", "flow"]}})
    from . import props_out
    props_out.drawn(run, streams, props_out.dressed(g, [
        g.gsl(67, [48, 65, 65, 2, 8, 0, 2, 0, 49, 0xA5, 0x0F, 50, 0x5A, 0xFF]) + g.gsl(69, [65, 65, 1, 1]),
        g.gsl(112, [48, 1, 1, 49, 8, 0, 2, 0, 0xF3, 0x11]) + g.gsl(50, [])], run.scale(.6, 1)))


@check("C15")
def c15(run):
    g = G(run.rng)
    core.model_check(run, "MC_Barcodes", "MC_Barcodes.cfg")
    streams = []
    digits = lambda n: [g.r.choice(b"0123456789") for _ in range(n)]
    two = lambda k, d: [[GS, 0x6B, k] + d + [0], [GS, 0x6B, 65 + k, len(d)] + d]
    for k in range(7):
        for n in range(0, 16):
            for _ in range(run.scale(3, 20)):
                streams += two(k, digits(n))
        for x in range(1, 256):
            streams.append([GS, 0x6B, 65 + k, 12] + digits(5) + [x] + digits(6))
            streams.append([GS, 0x6B, 65 + k, 3, 65, x, 66])
            streams.append([GS, 0x6B, k, 49, x, 50, 0])
    for x in range(256):
        streams.append([GS, 0x6B, x] + list(b"123456789012") + [0])
        streams.append([GS, 0x6B, x, 3, 65, 66, 67, 0])
        streams.append([GS, 0x6B, 72, 4, 65, x, 66, 67])
        streams.append([GS, 0x6B, 73, 4, 0x7B, 0x42, x, 66])
        streams.append([GS, 0x6B, 73, 4, 0x7B, 0x41, x, 66])
        streams.append([GS, 0x6B, 73, 4, 0x7B, 0x43, x, x])
        streams.append([GS, 0x6B, 73, 4, 0x7B, x, 49, 50])
        streams.append([GS, 0x6B, 71, 4, x, 49, 50, 65])
        streams.append([GS, 0x6B, 71, 4, 65, 49, 50, x])
        streams.append([GS, 0x68, x, GS, 0x6B, 5, 49, 50, 0])
        streams.append([GS, 0x77, x, GS, 0x6B, 5, 49, 50, 0])
        streams.append([GS, 0x48, x, GS, 0x66, g.edge(), GS, 0x6B, 5, 49, 50, 0])
        # its text beneath all settings of the text before it
        streams.append([GS, 0x21, x, GS, 0x48, g.pick(1, 2, 3), GS, 0x66, g.pick(0, 1), GS, 0x6B, 5, 49, 50, 0])
        streams.append([ESC, 0x21, x, GS, 0x48, g.pick(1, 2, 3), GS, 0x66, g.pick(0, 1), GS, 0x6B, 4, 49, 0, 97, 10])
    # CODE128: every sequence of what data is made of, in every set
    core.model_check(run, "MC_Code128", run.scale("MC_Code128.cfg", "MC_Code128_T.cfg"))
    mark = [[0x7B, x] for x in b"ABCS14{"]
    code = lambda d: [GS, 0x6B, 73, len(d)] + d
    for c in itertools.product(mark + [[48], [65], [97], [1], [127], [0x7B], [0xC3, 0x80], [0xC3, 0xB7]], repeat=3):
        for s in (b"A", b"B", b"C"):
            streams.append(code([0x7B] + list(s) + sum(c, [])))
        if g.chance(.2):
            streams.append(code(sum(c, [])))
    for x in range(256):
        for s in b"ABC":
            streams.append(code([0x7B, s, 0x7B, 0x53, x, x]))
            streams.append(code([0x7B, s, 49, 0x7B, x, 50]))
            streams.append(code([0x7B, s, 0x7B, x, 49, 50, 51]))
            streams.append(code([0x7B, s, 65, 0x7B, 0x53, x, 97, 31]))
    for x in ([0x7B, 0x7B], [0x7B], [0x7B, 0x53], [0x7B, 0x42], [0x7B, 0x43, 49], [0x7B, 0x42, 0x7B], [0x7B, 0x42, 0x7B, 0x53]):
        streams += [code(x), [GS, 0x48, 2] + code(x)]
    for a in range(10):
        for b in range(10):
            streams.append([GS, 0x6B, 2] + list(b"%d%d" % (a, b)) + digits(10) + [0])
    # every check digit and none, and things that are no digit in its place
    for k, n in ((0, 11), (2, 12), (3, 7), (1, 7), (1, 11)):
        for _ in range(run.scale(12, 120)):
            d = digits(n) if k != 1 else [g.r.choice(b"01")] + (digits(6) if n == 7 else
                digits(2) + [g.r.choice(b"012")] + list(b"0000") + digits(3))
            for x in [[]] + [[c] for c in b"0123456789"] + [[g.pick(0x58, 0x20, 0x2F, 0x3A)]]:
                streams += two(k, d + x)
    for a in b"ABCD":
        for b in b"ABCD":
            streams += two(6, [a] + digits(3) + [b]) + two(6, [a, b, a])
    for _ in range(run.scale(1200, 10000)):
        streams.append(g.stream(g.r.randint(1, 5), g.barcode, g.barcode, g.barset, g.barset, lambda: g.word(1, 9),
                                lambda: [10], lambda: g.barcode(8), lambda: g.barcode(1), g.justify, lambda: g.size(2)))
    for _ in range(run.scale(600, 5000)):
        streams.append(g.stream(1, g.barset) + g.barcode(g.pick(1, 8, 8, 7, 6)))
    # on a page, in every direction, in areas they fit in and do not
    for d in range(4):
        for hri in range(4):
            for w, h in ((300, 200), (60, 100), (100, 60), (609, 40), (2, 2), (0, 0)):
                page = [ESC, 0x4C, ESC, 0x57, 9, 0, 20, 0, w & 255, w >> 8, h & 255, h >> 8, ESC, 0x54, d]
                for just in range(3):
                    streams.append(page + [GS, 0x48, hri, ESC, 0x61, just] + g.stream(1, g.barset) + [GS, 0x48, hri] + g.barcode() + [97, 10, 12] + g.barcode())
                streams.append(page + g.stream(g.r.randint(2, 5), g.barcode, g.barset, lambda: [97], g.justify, lambda: g.size(2), g.barcode) + [98, 12])
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, errk=("G",), keep={"kinds": ["gfx", "text"], "span": ["t", "f", "d", "cw", "ch"],
                                               "f": {"text": ["s", "off"]}})
    from . import props_out
    props_out.drawn(run, streams, props_out.dressed(g, [[GS, 0x77, 2, GS, 0x68, 9, GS, 0x48, h] + [GS, 0x6B, 5, 49, 50, 0] for h in range(4)], run.scale(.5, 1)))


    # Two patterns of the encoder in use are not those of the standard; the specification has
    # them as they are (CodabarPlus, Code93Seen), so that any other difference is reported.
    a, gap = "1011001001", "0"
    known_bars(run, "codabar-plus", "the + of a Codabar is drawn with a pattern that no reader knows",
               [GS, 0x6B, 71, 3, 65, 43, 65], a + gap + "1011011011" + gap + a)
    known_bars(run, "code93-last-symbol", "a Code 93 check symbol of value 46 is drawn as value 45",
               [GS, 0x6B, 72, 2, 0x32, 0x25], "1010111101010001001101011101001100101101011101010111101")


def known_bars(run, key, what, stream, bits):
    job = {"id": key, "kind": "rec", "b": [GS, 0x77, 1] + stream, "keep": {"kinds": ["gfx"]}}
    o = core.observe(run, [job])[key]
    if not core.crashed(o):
        rects = [r for e in o["ev"] for r in e["r"]]
        w = max([1] + [r[2] for r in rects])
        dark = set(x for r in rects for x in range(r[0] // w, (r[0] + r[2]) // w))
        if dark == set(i for i, b in enumerate(bits) if b == "1"):
            return
    core.known_or_violation(run, key, what, job, o)


# ---------------------------------------------------- two dimensional codes
QR_BYTES = {   # room for bytes: levels L, M, Q, H of versions 1 to 40
    1: (17, 14, 11, 7), 2: (32, 26, 20, 14), 3: (53, 42, 32, 24), 4: (78, 62, 46, 34), 5: (106, 84, 60, 44),
    6: (134, 106, 74, 58), 7: (154, 122, 86, 64), 8: (192, 152, 108, 84), 9: (230, 180, 130, 98),
    10: (271, 213, 151, 119), 11: (321, 251, 177, 137), 12: (367, 287, 203, 155), 13: (425, 331, 241, 177),
    14: (458, 362, 258, 194), 15: (520, 412, 292, 220), 20: (858, 666, 482, 382), 26: (1367, 1059, 751, 593),
    27: (1465, 1125, 805, 625), 31: (1840, 1452, 1030, 788), 40: (2953, 2331, 1663, 1273)}
QR_L = (17, 32, 53, 78, 106, 134, 154, 192, 230, 271, 321, 367, 425, 458, 520, 586, 644, 718, 792, 858,
        929, 1003, 1091, 1171, 1273, 1367, 1465, 1528, 1628, 1732, 1840, 1952, 2068, 2188, 2303, 2431, 2563, 2699, 2809, 2953)


def qr_data(g, n):
    """n bytes that ask for one mode or many"""
    kind = g.pick("digits", "letters", "bytes", "bytes", "text", "utf8", "kanji", "mixed", "mixed", "zero", "ff")
    r = g.r
    if kind == "mixed":
        out = []
        while len(out) < n:
            out += qr_data(g, r.randint(1, g.pick(3, 12, 40)))
        return out[:n]
    pool = {"digits": b"0123456789", "letters": b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:",
            "text": b"abcdefghij klmnopqrstuvwxyz0123456789:/.?=&", "zero": b"\0", "ff": b"\xff"}.get(kind)
    if pool:
        return [r.choice(pool) for _ in range(n)]
    if kind == "utf8":
        s = "".join(r.choice("äöü€ñ日本語あいうカナ😀x1A") for _ in range(n)).encode()
        return list(s)[:n]
    if kind == "kanji":
        out = []
        while len(out) < n:
            out += [r.choice([0x81, 0x88, 0x9F, 0xE0, 0xEA, 0xEB, 0x93, 0x90]), r.choice([0x40, 0x7E, 0x7F, 0x80, 0xBF, 0xC0, 0xFC, 0x93, 0x30, r.randint(0, 255)])]
        return out[:n]
    return [r.randint(0, 255) for _ in range(n)]


def qr_setup(g, model=None, ec=None, size=None):
    """commands that set the model, the level and the size"""
    out = []
    if model:
        out += g.gsk(49, 65, [48 + model, 0])
    if ec is not None:
        out += g.gsk(49, 69, [48 + ec])
    if size is not None:
        out += g.gsk(49, 67, [size])
    return out


def qr_store(g, d):
    return g.gsk(49, 80, [48] + d) + SEEN


SEEN = [CAN, 0x40]      # a command after which the symbol stored is observed
QR_PRINT = [GS, 0x28, 0x6B, 3, 0, 49, 81, 48]


def seen(s):
    """the stream with SEEN after every store"""
    out, i = [], 0
    while i < len(s):
        n = 1
        if s[i:i + 3] == [GS, 0x28, 0x6B]:
            n = 5 + s[i + 3] + 256 * s[i + 4]
        out += s[i:i + n]
        if s[i:i + 3] == [GS, 0x28, 0x6B] and s[i + 6] == 80:
            out += SEEN
        i += n
    return out


@check("C16")
def c16(run):
    g = G(run.rng)
    core.model_check(run, "MC_QrCode", "MC_QrCode.cfg" if run.quick else "MC_QrCodeT.cfg")
    streams = [seen(s) for s in behaviours(run, "Codes", 4, 5, run.scale(1500, 20000))]
    # full symbols, and one byte too many for them, at every level
    for v in QR_BYTES:
        if run.quick and v > 15 and v not in (27, 40):
            continue
        for ec in range(4):
            if run.quick and v > 6 and ec != g.r.randint(0, 3):
                continue
            for n in (QR_BYTES[v][ec], QR_BYTES[v][ec] + 1):
                if v <= 3 or n != QR_BYTES[v][ec] + 1 or not run.quick or v == 14:
                    d = [g.r.randint(128, 255) if i % 2 else 97 for i in range(n)]
                    streams.append(qr_setup(g, 2, ec) + qr_store(g, d) + QR_PRINT)
                    if v in (13, 14, 15):
                        streams.append(qr_setup(g, 1, ec) + qr_store(g, d) + QR_PRINT)
    for n in QR_L:
        for k in (n, n + 1):
            d = [g.r.randint(128, 255) if i % 2 else 97 for i in range(k)]
            streams.append(qr_setup(g, 2, 0 if run.quick else g.r.randint(0, 3)) + qr_store(g, d) + QR_PRINT)
    for n in range(0, 37):          # micro symbols
        for ec in range(4):
            for pool in (b"0123456789", b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:", None):
                d = [g.r.choice(pool) for _ in range(n)] if pool else qr_data(g, n)
                if not run.quick or g.r.random() < 0.5:
                    streams.append(qr_setup(g, 3, ec) + qr_store(g, d) + QR_PRINT)
    for x in range(256):            # every module size, level and model; printing what is not stored
        streams.append(g.gsk(49, 67, [x]) + qr_store(g, [65, x]) + QR_PRINT)
        streams.append(g.gsk(49, 69, [x]) + qr_store(g, [x, 66, 67]) + QR_PRINT)
        streams.append(g.gsk(49, 65, [x, g.edge()]) + qr_store(g, [49, 50]) + QR_PRINT)
    for m in range(46, 60):
        for fn in (80, 81, 82):
            streams.append(qr_store(g, [65, m]) + g.gsk(m, fn, [48] + qr_data(g, 5)) + SEEN + QR_PRINT)
            streams.append(g.gsk(m, fn, [48] + qr_data(g, 5)) + SEEN + QR_PRINT)
    for k in range(0, run.scale(120, 2000)):     # the settings and their operands, of every length
        s = []
        for _ in range(g.r.randint(1, 5)):
            s += g.code2dset()
        streams.append(s + qr_store(g, qr_data(g, g.pick(0, 1, 5, 12))) + QR_PRINT)
    for fnm in ((48, 65), (48, 66), (48, 67), (48, 69), (48, 70), (50, 65), (51, 67), (51, 71), (52, 67),
                (52, 71), (52, 72), (53, 66), (53, 67), (53, 69), (54, 66), (54, 67)):
        for x in range(256) if not run.quick else sorted({0, 1, 2, 3, 4, 16, 17, 32, 33, 47, 48, 49, 50, 51, 57, 58, 97, 98, 255} | {g.edge() for _ in range(6)}):
            streams.append(g.gsk(fnm[0], fnm[1], [x]) + QR_PRINT)
            streams.append(g.gsk(fnm[0], fnm[1], [x, g.edge(), g.edge()]) + QR_PRINT)
            streams.append(g.gsk(fnm[0], fnm[1], [g.edge(), x]) + QR_PRINT)
    for _ in range(run.scale(500, 6000)):        # where they are printed, and in what order
        st = lambda: qr_store(g, qr_data(g, g.pick(0, 1, 2, 5, 9, 16, 17, 20, 33, 60)))
        streams.append(g.stream(g.r.randint(2, 8), st, st, lambda: QR_PRINT, lambda: QR_PRINT,
                                lambda: qr_setup(g, g.pick(1, 2, 3, None), g.pick(None, 0, 1, 2, 3), g.pick(None, 1, 3, 4, 8, 30, 255)),
                                g.justify, lambda: g.word(1, 5), lambda: [10], g.code2dset, g.position, g.pages,
                                lambda: g.pick([ESC, 0x40], [65], [GS, 0x57, g.pick(10, 60, 200), 0])))
    for _ in range(run.scale(60, 1500)):         # data of many lengths
        n = g.pick(g.r.randint(0, 60), g.r.randint(40, 200), g.r.randint(100, 500)) if run.quick else g.r.randint(0, g.pick(100, 700, 3000))
        streams.append(qr_setup(g, g.pick(1, 2, 2, 2), g.r.randint(0, 3), g.pick(1, 3)) + qr_store(g, qr_data(g, n)) + QR_PRINT)
    for n in ((3000, 7089, 7090) if run.quick else (2954, 3000, 4296, 4297, 7089, 7090, 20000, 65532)):
        streams.append(qr_setup(g, 2, 0) + qr_store(g, [g.r.choice(b"0123456789") for _ in range(n)]) + QR_PRINT)
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, snap="q", errk=("G",), keep={"kinds": ["gfx", "dev"], "devs": ["BeginPrint", "Initialize", "Cancel", "EndPrint"]})
    from . import props_out
    codes = [qr_setup(g, size=n) + qr_store(g, list(d)) + QR_PRINT for n, d in ((2, b"a"), (3, b"12"), (1, b"Hello, World"))]
    props_out.drawn(run, streams, props_out.dressed(g, codes, run.scale(.6, 1)), 120, 60)


@check("C17")
def c17(run):
    g = G(run.rng)
    core.model_check(run, "MC_CodePages", "MC_CodePages.cfg")
    streams = []
    printable = [b for b in range(32, 256) if b != 127] + [127]
    for ct in range(256):
        s = [ESC, 0x74, ct]
        for k in range(0, len(printable), 40):
            s += [x for x in printable[k:k + 40]] + [10]
        streams.append(s)
    for cs in range(256):
        s = [ESC, 0x52, cs] + list(range(33, 73)) + [10] + list(range(73, 127)) + [10]
        streams.append(s)
        streams.append([ESC, 0x74, g.pick(0, 2, 3, 255)] + s)
    for ct in (0, 2, 3, 13):
        for cs in list(range(18)) + [66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 82]:
            streams.append([ESC, 0x52, cs, ESC, 0x74, ct] + list(range(33, 73)) + [10] + list(range(73, 127)) + [10] + list(range(128, 160)) + [10])
    # every set over every table, selected before and after it: the characters a set replaces
    for ct in range(256):
        for cs in ([list(range(18))] if run.quick else [[c] for c in range(256)]):
            s = []
            for c in cs:
                s += g.one([ESC, 0x52, c, ESC, 0x74, ct], [ESC, 0x74, ct, ESC, 0x52, c]) + list(b"#$@[\\]^`{|}~") + [10]
            streams.append(s)
    # text as UTF-8: every lead byte, truncated and overlong sequences
    for a in range(128, 256):
        for rest in ([], [0x80], [0xBF, 0x80], [0x80, 0x80], [0xA0, 0x80], [0x90, 0x80, 0x80], [0x8F, 0xBF, 0xBF], [0x9F, 0xBF],
                     [65], [0x80, 65], [0x80, 0x80, 65]):
            streams.append([ESC, 0x74, 255, 97, a] + rest + [98, 10])
    for u in (0x80, 0x85, 0xA0, 0xAD, 0x61C, 0x1680, 0x180E, 0x200B, 0x200D, 0x200E, 0x2028, 0x2029, 0x202E, 0x2060, 0x3000, 0xD7FF, 0xE000,
              0xFE0F, 0xFEFF, 0xFFF9, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0xE0001, 0x10FFFF, 0x301, 0x1F468):
        e = list(chr(u).encode())   # characters that are not seen, at every end of a run of text
        for s in (e, e + [97], [97] + e, [97] + e + [98], e + e + [97], [97] + e + [10] + e + [98], e + [32] + e + [97], [97] * 50 + e + e + [98]):
            streams.append([ESC, 0x74, 255] + s + [10])
            streams.append([FS, 0x28, 0x43, 2, 0, 48, g.pick(2, 50)] + s + g.one([10], [ESC, 0x45, 1] + e + [10]))
    for _ in range(run.scale(1500, 15000)):
        u = bytes(chr(g.r.choice([0x41, 0x7F + 1, 0xE9, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF])), "utf8") \
            if g.chance(.8) else bytes([g.byte()])
        streams.append([ESC, 0x74, 255] + sum([list(bytes(chr(g.r.choice([0x41, 0xE9, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0x10000, 0x1F600])), "utf8"))
                                               for _ in range(g.r.randint(1, 5))], []) + list(u[:g.r.randint(0, 4)]) + g.word(0, 2) + [10])
    for _ in range(run.scale(800, 8000)):
        streams.append(g.stream(g.r.randint(2, 9), g.charset, g.charset, lambda: [g.r.choice(printable) for _ in range(g.r.randint(1, 20))],
                                lambda: [10], lambda: [ESC, 0x40]))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, keep={"kinds": ["text"], "f": {"text": ["s"]}, "span": ["t"]})


# ------------------------------------------------------------------- errors
@check("C19")
def c19(run):
    g = G(run.rng)
    core.model_check(run, "MC_Parser", "MC_Parser1.cfg")
    streams = []
    for lead in (ESC, GS, FS, DLE, CAN):
        for x in range(256):
            streams.append([65, lead, x, 66, 10])
            streams.append([lead, x])
            streams.append([10, lead, x, 10, lead, x, ESC, 0x40])
    for x in range(256):
        streams += [[GS, 40, x, 2, 0, 48, 49, 66], [GS, 40, 76, 2, 0, 48, x, 10], [GS, 40, 107, 3, 0, x, 80, 49, 10],
                    [GS, 40, 107, 3, 0, 49, x, 49, 10], [GS, 0x6B, x, 2, 200, 0, 10]]
    bad = [[GS, 0x6B, 65, 3, 49, 50, 51], [GS, 0x6B, 2, 65, 0], [GS, 0x6B, 73, 2, 49, 50], g.gsk(49, 81, [48]),
           [GS, 0x76, 0x30, 0, 2, 0, 2, 0], [GS, 0x6B, 69, 1, 97], [FS, 0x40], [ESC, 0x7A, 1], [GS, 0x6B, 90, 1],
           g.gsl(67, [48, 65, 65, 1, 8, 0, 2, 0, 49, 1]) + g.gsl(69, [65, 65, 1, 1]), [GS, 0x6B, 71, 2, 49, 50],
           g.gsl(112, [48, 1, 1, 49, 8, 0, 2, 0, 1]) + g.gsl(50, []), [GS, 0x6B, 1, 49, 0], [ESC, 0x2A, 0, 2, 0, 1]]
    for c in itertools.product(bad, repeat=run.scale(2, 3)):
        streams.append(sum(c, []) + [97, 10])
    for _ in range(run.scale(2500, 25000)):
        streams.append(g.stream(g.r.randint(1, 10), g.any, g.any, lambda: g.r.choice(bad), g.barcode,
                                lambda: [g.r.choice([ESC, GS, FS, DLE, CAN]), g.byte()], g.stored,
                                lambda: g.gsk(49, 81, [48])))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_rec(run, streams, errk=("U", "G"), keep={"kinds": []})
    # and what the image output has to leave out
    from . import props_out
    streams = props_out.outside(run, g)
    run.notes["streams_for_the_edges_of_the_paper"] = len(streams)
    props_out.judge_outside(run, streams)


# ------------------------------------------------- totality and determinism
@check("C20")
def c20(run):
    g = G(run.rng)
    core.model_check(run, "MC_Parser", "MC_Parser1.cfg")
    streams = []
    for a in range(256):
        streams.append([a])
        streams.append([a, 10])
    for o in OPENERS:
        streams += [list(o), list(o) + [0], list(o) + [255], list(o) * 3, list(o) + [255] * 9, list(o) + [0] * 9, list(o) + [1] * 9]
    for _ in range(run.scale(1500, 15000)):
        streams.append(g.stream(g.r.randint(1, 12), g.any))
    for _ in range(run.scale(500, 5000)):
        streams.append(g.bytes(g.r.randint(1, 60)))
    for _ in range(run.scale(400, 4000)):
        s = g.stream(g.r.randint(2, 8), g.any)
        for _ in range(g.r.randint(1, 3)):
            if s:
                i = g.r.randrange(len(s))
                s[i:i + g.r.randint(0, 2)] = [g.edge()] * g.r.randint(0, 2)
        streams.append(s)
    streams = [bounded(s) for s in dedup(streams) if not huge(s)]
    note_streams(run, streams)
    # the same stream twice, in another order, in other processes: the same observation
    judge_rec(run, streams, errk=("U", "G"), keep={"kinds": ["begin", "end"]}, nout=True)
    order = list(range(len(streams)))
    g.r.shuffle(order)
    twice(run, "rec", streams, order, {"snap": "gtbqps", "px": True, "keep": {"all": 1}}, run.scale(len(streams), len(streams)))
    twice(run, "img", streams, order, {"grid": False, "keep": {"kinds": []}}, run.scale(700, 6000))
    twice(run, "html", streams, order, {"keep": {"kinds": []}}, run.scale(700, 6000))
    twice(run, "parse", streams, order, {}, len(streams))
    # with the debugging marks and notes on: the same events, errors and number of outputs
    pages = [[ESC, 0x4C], [ESC, 12], [ESC, 0x53], [12], [ESC, 0x57] + [0] * 8, [ESC, 0x57, 0, 0, 0, 0, 5, 0, 0, 0], [ESC, 0x54, 1],
             [ESC, 0x57, 0, 0, 0, 0, 40, 0, 40, 0], [97], [32], [0x80, 10], [GS, 0x76, 0x30, 0, 1, 0, 1, 0, 255],
             [GS, 0x76, 0x30, 0, 0, 0, 0, 0], [ESC, 0x2A, 33, 2, 0, 1, 2, 3, 4, 5, 6, 10], [GS, 0x21, 0x77]]
    extra = [sum(c, []) for k in (1, 2, 3) for c in itertools.product(pages, repeat=k)]
    plain = [s for s in dedup(extra + streams) if not huge(s)]
    n = run.scale(len(extra) + 1500, len(plain))
    compare_debug(run, g, plain[:n])
    alike(run, g)
    every_operand(run, g)


def every_operand(run, g):
    """Every command with every value of its first and second byte, and then all kinds of things
    printed: rendering comes to its end."""
    tail = [97, 9, 98, 9, 10, 97, GS, 0x6B, 4, 49, 0, GS, 0x76, 0x30, 0, 1, 0, 1, 0, 255, ESC, 0x2A, 0, 1, 0, 255, ESC, 0x4C, 97, 10, ESC, 12, ESC, 0x40, 97, 10]
    streams = []
    for o in sorted(set(map(tuple, OPENERS))):
        for x in range(256):
            streams += [list(o) + [x], list(o) + [g.edge(), x], list(o) + [x, g.edge()], list(o) + [g.byte(), g.byte(), x]]
    streams = [bounded(s + [g.edge() for _ in range(g.r.randint(0, 2))] + tail) for s in streams]
    streams = [s for s in streams if not huge(s)]
    run.notes["streams_of_every_operand"] = len(streams)
    for kind, some in (("rec", streams), ("img", streams[::run.scale(16, 2)]), ("html", streams[::run.scale(16, 2)])):
        jobs = [{"id": "e%d" % i, "kind": kind, "b": b, "grid": False, "keep": {"kinds": []}} for i, b in enumerate(some)]
        obs = core.observe(run, jobs)
        for j in jobs:
            if core.crashed(obs[j["id"]]):
                core.violation(run, "%s: the code under test ended: %s on %s" % (kind, core.crashed(obs[j["id"]]), hexs(j["b"])), j, obs[j["id"]])


def alike(run, g):
    """Streams that print the same things under different settings, of which nothing may be
    remembered from one stream to the next."""
    text, streams = [65, 103, 0x8E, 0xB0, 0xE2, 0x98, 0xBA, 49, 32, 35, 64, 92, 94, 124, 10], []
    tables, sets = [0, 1, 2, 3, 4, 5, 11, 12, 13, 14, 16, 18, 19, 20, 32, 36, 48, 64, 128, 255], list(range(18)) + list(range(66, 76)) + [76, 82, 255]
    for t in tables:
        for c in sets:
            streams += [[ESC, 0x74, t, ESC, 0x52, c] + text, [ESC, 0x52, c, ESC, 0x74, t] + text]
    streams += [[FS, 0x28, 0x43, 2, 0, 48, m] + text for m in (1, 2, 49, 50)] + [[ESC, 0x74, 255] + text]
    styles = [[[], [ESC, 0x4D, 1], [ESC, 0x4D, 2], [ESC, 0x4D, 97], [ESC, 0x4D, 98]], [[], [ESC, 0x45, 1]], [[], [ESC, 0x34, 1]],
              [[], [GS, 0x21, 0x01], [GS, 0x21, 0x10], [GS, 0x21, 0x11], [GS, 0x21, 0x77]],
              [[], [ESC, 0x2D, 2], [GS, 0x42, 1], [ESC, 0x7B, 1], [ESC, 0x72, 1], [ESC, 0x47, 1], [ESC, 0x61, 1]]]
    streams += [sum(c, []) + [65, 103, 10] for c in itertools.product(*styles)]
    bars = [[[], [GS, 0x77, 2], [GS, 0x77, 6]], [[], [GS, 0x68, 20], [GS, 0x68, 255]], [[], [GS, 0x48, 1], [GS, 0x48, 2], [GS, 0x48, 3]],
            [[], [GS, 0x66, 1]], [[GS, 0x6B, k] + [49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49][:n] + [0] for k, n in ((0, 11), (2, 11), (3, 7), (4, 8), (5, 8), (6, 8))] +
            [[GS, 0x6B, k, n] + [49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49][:n] for k, n in ((65, 11), (68, 8), (69, 8), (70, 8), (72, 8), (73, 8))]]
    streams += [sum(c, []) for c in itertools.product(*bars)]
    for size in (1, 3, 8, 16):
        for level in (48, 49, 50, 51):
            for model in (49, 50, 51):
                streams.append(g.gsk(49, 67, [size]) + g.gsk(49, 69, [level]) + g.gsk(49, 65, [model, 0]) + g.gsk(49, 80, [48, 49, 50, 51]) + g.gsk(49, 81, [48]))
    for w, h in ((1, 8), (8, 1), (2, 4), (4, 2)):
        for m in (0, 1, 2, 3):
            streams.append([GS, 0x76, 0x30, m, w, 0, h, 0] + list(range(1, 9)) + [10])
    for m in (0, 1, 32, 33):
        streams += [[ESC, 0x2A, m, n, 0] + list(range(1, 25)) + [10] for n in (2, 4, 8, 24)]
    for key in ([65, 65], [65, 66]):
        for fn in (67, 83):
            for bx, by, c in itertools.product((1, 2), (1, 2), (49, 50)):
                streams.append(g.gsl(fn, [48] + key + [1] + [16, 0, 2, 0] + [c, 0xA5, 0x0F, 0x81, 0x33]) + g.gsl(fn + 2, key + [bx, by]))
    streams += [g.gsl(69, key + [1, 1]) + g.gsl(85, key + [1, 1]) for key in ([65, 65], [65, 66])]
    for q in range(4):
        for area in ([], [0, 0, 100, 60], [0, 0, 60, 100], [10, 10, 100, 60]):
            streams.append([ESC, 0x4C] + ([ESC, 0x57] + sum(([n, 0] for n in area), []) if area else []) + [ESC, 0x54, q, 65, 103, 32, 66, 10, 12])
    for c in (0x1B, 0x1D):
        streams += [[c, 0x50] + [x, y] + [ESC, 0x24, 60, 0, 65, 10] for x in (0, 90, 203) for y in (0, 203)]
    streams = dedup(streams)
    run.notes["streams_alike"] = len(streams)
    order = list(reversed(range(len(streams))))
    for kind, more in (("rec", {"snap": "gtbqps", "px": True, "keep": {"all": 1}}), ("img", {"keep": {"kinds": []}}), ("html", {"keep": {"kinds": []}})):
        twice(run, kind, streams, order, more, len(streams))
    g.r.shuffle(order)
    twice(run, "rec", streams, order, {"snap": "gtbqps", "px": True, "keep": {"all": 1}}, len(streams))


def compare_debug(run, g, streams):
    """Debugging only adds marks and notes: what is rendered is the same job."""
    # marks outside the canvas are the canvas's own errors
    own = lambda o: [e for e in o["err"] if e[0] != "C"]
    for kind in ("img", "html"):
        base = [{"id": "%s-%d" % (kind, i), "kind": kind, "b": s, "grid": False, "keep": {"all": 1}, "snap": "t"}
                for i, s in enumerate(streams)]
        deb = [dict(j, debug=g.r.choice(["t", "i", "p", "n", "tipn", "tipn"])) for j in base]
        a, b = core.observe(run, base), core.observe(run, deb)
        for j in deb:
            x, y = a[j["id"]], b[j["id"]]
            if core.crashed(x) or core.crashed(y):
                core.violation(run, "%s with debugging '%s': the code under test ended: %s on %s" %
                               (kind, j["debug"], core.crashed(x) or core.crashed(y), hexs(j["b"])), j, y)
            elif any(x[k] != y[k] for k in ("ev", "nout")) or own(x) != own(y):
                core.violation(run, "%s with debugging '%s' renders another job on %s" % (kind, j["debug"], hexs(j["b"])), j, [x, y])
    run.notes["runs_with_debugging"] = 2 * len(streams)


def twice(run, kind, streams, order, more, n):
    jobs = [dict(more, id="%s%d" % (kind, i), kind=kind, b=streams[i]) for i in range(len(streams))][:n]
    first = core.observe(run, jobs)
    again = core.observe(run, [jobs[i] for i in order if i < n])
    for j in jobs:
        a, b = first[j["id"]], again[j["id"]]
        if core.crashed(a) or core.crashed(b):
            core.violation(run, "%s: the code under test ended: %s on %s" % (kind, core.crashed(a) or core.crashed(b), hexs(j["b"])), j, a)
        elif a != b:
            core.violation(run, "%s: two runs of %s differ" % (kind, hexs(j["b"])), j, [a, b])
    run.notes["runs_compared"] = run.notes.get("runs_compared", 0) + len(jobs)


def huge(s):
    """Declares a picture of more than some thousand dots a side (out of scope)."""
    for i in range(len(s) - 3):
        if s[i] == ESC and s[i + 1] == 0x57:
            if any(x > 15 for x in s[i + 3:i + 10:2]):
                return True
        if s[i] == GS and s[i + 1] == 0x76 and any(x > 3 for x in (s[i + 5:i + 6] + s[i + 7:i + 8])):
            return True
    return False


@check("C21")
def c21(run):
    g = G(run.rng)
    streams = behaviours(run, "Jobs", 4, 6, run.scale(3000, 30000))
    streams += [[], [10], [12], [ESC, 0x4C, 12], [ESC, 12]]
    alphabet = [[97], [10], [ESC, 0x40], [ESC, 0x4C], [ESC, 12], [GS, 0x56, 0], [ESC, 0x53], [FS, 1], [GS, 0x6B, 2, 49, 0], [12]]
    for k in range(1, run.scale(4, 5)):
        for c in itertools.product(alphabet, repeat=k):
            streams.append(sum(c, []))
    for _ in range(run.scale(1500, 15000)):
        streams.append(g.stream(g.r.randint(1, 12), g.any, g.pages, lambda: [ESC, 0x4C] + g.word(1, 3) + [12]))
    streams = [s for s in dedup(streams) if not huge(s)]
    note_streams(run, streams)
    keep = {"kinds": ["begin", "end", "dev"], "devs": ["BeginPrint", "EndPrint"]}
    notes = judge_rec(run, streams, keep=keep, nout=True)
    # Where the specification has a form feed end the job early (the known finding) nothing
    # is asked of the documents.
    ids = [i for i in range(len(streams)) if notes.get(str(i), {}).get("no") == 1]
    run.notes["jobs_ended_by_form_feed"] = len(streams) - len(ids)
    ids = ids[:: max(1, len(ids) // run.scale(800, 8000))]
    for kind in ("img", "html"):
        jobs = [{"id": "%s%d" % (kind, i), "kind": kind, "b": streams[i], "direct": True, "grid": False} for i in ids]
        obs = core.observe(run, jobs)
        for j in jobs:
            o = obs[j["id"]]
            if core.crashed(o):
                core.violation(run, "%s: the code under test ended: %s on %s" % (kind, core.crashed(o), hexs(j["b"])), j, o)
            elif o["nout"] != 1:
                core.violation(run, "%s: %d outputs of the one job %s" % (kind, o["nout"], hexs(j["b"])), j, o)
        run.notes["documents"] = run.notes.get("documents", 0) + len(jobs)
    known_form_feed(run)


def known_form_feed(run):
    """The known finding of C21: text, FF, text is one job in and two outputs out."""
    job = {"id": "ff", "kind": "img", "b": [65, 10, 12, 66, 10], "direct": True, "grid": False}
    o = core.observe(run, [job])["ff"]
    if not core.crashed(o) and o["nout"] == 1:
        return
    core.known_or_violation(run, "form-feed-ends-job", "what follows a form feed in standard mode is lost and an "
                            "empty output is added (41 0A 0C 42 0A gives %s outputs)" % o.get("nout"), job, o)


# ---------------------------------------------------------------- replay
def replay(run, rep):
    """Runs the recorded job again and judges it again."""
    job = rep["job"]
    if run.prop == "C20":
        # a difference between two runs needs what ran before
        CHECKS[run.prop](run)
    elif run.prop == "C19" and job.get("kind") == "img":
        from . import props_out
        props_out.judge_outside(run, [job["b"]])
    elif run.prop in REPLAYS:
        REPLAYS[run.prop](run, job)
    elif job.get("kind") == "parse":
        judge_parse(run, [job["b"]])
    elif job.get("kind") == "rec":
        judge_jobs(run, [job], job.get("errk", ("U", "G")))
    else:
        CHECKS[run.prop](run)
    return 1 if run.violations else 0
