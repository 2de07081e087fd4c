"""C11, C12, C18: the canvas, the receipt image and the receipt document."""
import hashlib
import random
import re

from . import htmlview
from .props import *

BLACK, WHITE, GREY, RED = 0, 0xFFFFFF, 0x808080, 0xFF0000


# ------------------------------------------------------------------- canvas
def judge_canvas(run, jobs):
    obs = core.observe(run, jobs)
    lines, ids, byid = [], [], {}
    for j in jobs:
        o = obs[j["id"]]
        byid[j["id"]] = j
        if core.crashed(o):
            core.violation(run, "the canvas ended: %s on %s" % (core.crashed(o), short(j["ops"])), j, o)
            continue
        lines.append(json.dumps(dict(j, steps=o["steps"])))
        ids.append(j["id"])
    for m in core.judge(run, "ConfCanvas", "ConfCanvas.cfg", lines, ids):
        j = byid[m["job"]]
        core.violation(run, "%s (operation %d of %s on %dx%d%s): the specification has %s, the code %s" % (
            m["mismatch"][0], m["at"], short(j["ops"]), j["w"], j["h"], " growing" if j["grow"] else "",
            short(m["want"]), short(m["got"])), j, m)


def canvas_ops(g, big):
    inks = [BLACK, BLACK, WHITE, -1, GREY, RED, g.r.randrange(1 << 24)]
    n = lambda hi: g.r.randint(0, hi)

    def put():
        w, h = n(big), n(big)
        return ["put", n(big), n(big + 2), w, h, [g.r.choice(inks) for _ in range(w * h)], g.chance(.6)]
    return g.r.choice([put, put, put, lambda: ["rect", n(big), n(big + 2), n(big), n(big), g.r.choice(inks)],
                       lambda: [g.pick("r90", "r180", "r270")], lambda: ["ew", n(big + 3)], lambda: ["eh", n(big + 3)],
                       lambda: ["flip", n(big), n(big), n(big), n(big)], lambda: ["page", n(big + 2), n(big + 2), n(3)],
                       lambda: ["sw", n(big)] if g.chance(.2) else put()])()


@check("C11")
def c11(run):
    g = G(run.rng)
    core.model_check(run, "MC_Canvas", "MC_Canvas.cfg", None if run.quick else {"Depth": 3})
    jobs = []

    def job(w, h, grow, ops):
        jobs.append({"id": "c%d" % len(jobs), "kind": "canvas", "w": w, "h": h, "grow": grow, "ops": ops})
    # every place of every small rectangle on small canvases
    px = lambda w, h: [g.r.choice([BLACK, WHITE, -1, GREY, RED]) for _ in range(w * h)]
    for w, h in ((3, 3), (4, 2), (1, 4)):
        for grow in (True, False):
            ground = ["put", 0, 0, w, h, px(w, h), False]
            for x, y, a, b in itertools.product(range(w + 2), range(h + 2), range(w + 2), range(h + 2)):
                job(w, h, grow, [ground, ["put", x, y, a, b, px(a, b), g.chance(.5)], ["r90"], ["r270"]])
                job(w, h, grow, [ground, ["flip", x, y, a, b], ["put", 0, 0, w, 1, px(w, 1), True]])
                job(w, h, grow, [ground, ["rect", x, y, a, b, g.pick(BLACK, RED)]])
            for t in itertools.product(range(4), range(4), range(1, h + 3), range(1, w + 3)):
                job(w, h, grow, [ground] + [["r90"]] * t[0] + [["page", t[2], t[3], t[0]]] + [["r90"]] * ((t[1] - t[0]) % 4)
                    + [["page", t[3], t[2], t[1]], ["put", 0, 0, t[3], t[2], px(t[3], t[2]), True]])
            for n in range(0, 9):
                job(w, h, grow, [ground, ["ew", n], ["eh", n], ["put", 1, 1, n, 2, px(n, 2), True]])
    # ink over ink
    for a in (BLACK, WHITE, GREY, RED, 0x00FF00, 0x123456, 0xFFFFFE, 0x010101):
        for b in (BLACK, WHITE, GREY, RED, -1, 0x00FFFF, 0xFEDCBA, 0x7F8081):
            for m in (True, False):
                job(2, 1, True, [["put", 0, 0, 1, 1, [a], False], ["put", 0, 0, 2, 1, [b, b], m], ["rect", 0, 0, 1, 1, b]])
    for x in range(0, 256, run.scale(5, 1)):
        job(1, 256, True, [["put", 0, 0, 1, 256, [y * 65536 + 257 * (255 - y) for y in range(256)], False],
                           ["put", 0, 0, 1, 256, [x * 65793] * 256, True]])
    for _ in range(run.scale(4000, 40000)):
        big = g.pick(3, 3, 4, 5, 8)
        job(g.r.randint(0, big), g.r.randint(0, big), g.chance(.5), [canvas_ops(g, big) for _ in range(g.r.randint(2, 12))])
    for _ in range(run.scale(60, 600)):
        job(g.r.randint(20, 70), g.r.randint(0, 60), g.chance(.5), [canvas_ops(g, 40) for _ in range(g.r.randint(2, 6))])
    # canvases of more dots than 16 bits count
    for w, h in ((300, 230), (230, 300), (66000, 1), (1, 66000)):
        marks = [["put", w - 1, h - 1, 1, 1, [RED], False], ["rect", w // 2, h // 3, 7, 5, BLACK], ["put", 0, 0, 2, 2, [GREY, BLACK, RED, -1], False]]
        for turn in (["r90"], ["r180"], ["r270"], ["flip", 0, 0, w, h], ["ew", w + 3], ["eh", h + 2]):
            if turn[0] != "eh" or w < 1000:
                job(w, h, True, marks + [turn])
    for turn in (["r90"], ["r180"], ["r270"]):
        job(700, 400, True, [["rect", 3, 2, 7, 5, BLACK], turn])
    run.notes["sequences"] = len(jobs)
    for j in jobs[:: len(jobs) // 3][:3]:
        run.sample(short(j["ops"]))
    judge_canvas(run, jobs)


REPLAYS["C11"] = lambda run, job: judge_canvas(run, [job])


# ------------------------------------------------------------ the receipt image
FONT_CODES = {"A": 0, "B": 1, "C": 2, "D": 3}


def cell(f):
    return (12, 24) if f == "A" else (9, 17)


def letters(run, keys):
    """The letters as they are printed alone in the top left corner: {key: how much of every dot
    of the cell is ink}, as a grid."""
    jobs = []
    for n, (ch, f, b, i, k) in enumerate(keys):
        s = [ESC, 0x4D, FONT_CODES[f], ESC, 0x45, b, ESC, 0x34, i, GS, 0x21, (k - 1) * 17, ESC, 0x74, 255]
        jobs.append({"id": "l%d" % n, "kind": "img", "b": s + list(chr(ch).encode()) + [10], "cells": 60000,
                     "keep": {"kinds": []}})
    obs = core.observe(run, jobs)
    out = []
    for j, (ch, f, b, i, k) in zip(jobs, keys):
        o = obs[j["id"]]
        if core.crashed(o) or len(o["imgs"]) != 1 or "c" not in o["imgs"][0]:
            core.violation(run, "no picture of the letter %r: %s" % (chr(ch), short(o)), j, o)
            continue
        w, h = cell(f)[0] * k, cell(f)[1] * k
        p = Dots(o["imgs"][0])
        g = grid_of(w, h, lambda x, y: 255 - (p.at(x + 20, y + 108) & 255))
        out.append(dict(g, k=[ch, f, cell(f)[0], bool(b), bool(i), k]))
    return out


class Dots:
    """Single dots of a grid."""

    def __init__(self, g):
        import bisect
        self.g, self.find = g, bisect.bisect_right

    def at(self, x, y):
        g = self.g
        if x >= g["w"] or y >= g["h"]:
            return 0xFFFFFF
        return g["c"][self.find(g["ys"], y) - 1][self.find(g["xs"], x) - 1]


def grid_of(w, h, at):
    d = [[at(x, y) for x in range(w)] for y in range(h)]
    xs = [x for x in range(w) if x == 0 or any(r[x] != r[x - 1] for r in d)]
    ys = [y for y in range(h) if y == 0 or d[y] != d[y - 1]]
    return {"w": w, "h": h, "xs": xs, "ys": ys, "c": [d[y][x] for y in ys for x in xs]}


QR_STORE = re.compile(rb"\x1d\(k..1P", re.S)


def qr_hints(run, jobs):
    """The symbols each job's stores leave, as observed at the SEEN after each of them: {id: [[sym, pts]..]}.
    (Whether they say what was stored is judged by C16.)"""
    some = [{"id": j["id"], "kind": "rec", "b": j["b"], "snap": "q", "keep": {"kinds": ["dev"], "devs": ["Cancel"],
             "ctx": {"q": ["sym", "pts"]}}} for j in jobs if QR_STORE.search(bytes(j["b"]))]
    out = {}
    for i, o in (core.observe(run, some) if some else {}).items():
        seen, pts = [], []
        for e in o.get("ev", []):
            q = e["c"]["q"]
            pts = pts if q["pts"] == [2] else q["pts"]
            seen.append([q["sym"], pts])
        out[i] = seen
    return out


OFF = re.compile(r"^Image exceeded paper x(\d+) y(\d+) w(\d+) h(\d+) : exceeded: width\? (true|false) height\? (true|false)\s*$")


def off_paper(errors):
    """What the image output says was outside the paper or page; <<-1>> for what it can not say."""
    out = []
    for e in errors:
        if e[0] != "C":
            continue
        m = OFF.match(e[1])
        said = [int(m.group(i)) for i in range(1, 5)] if m else [-1]
        if m and (m.group(5) == "true", m.group(6) == "true") != (said[0] >= said[2], said[1] >= said[3]):
            said = [-1] + said
        out.append(said)
    return out


def judge_receipts(run, streams, keys, tag="r", cells=9000, errors=False):
    path = os.path.join(run.work, "glyphs.ndjson")
    with open(path, "w") as f:
        f.write("".join(json.dumps(g) + "\n" for g in letters(run, keys)))
    msgs, text, _ = core.tlc(run, "ConfLetters", "ConfLetters.cfg", env={"GLYPHS": path})
    if "Error:" in text:
        raise core.ToolError("TLC on ConfLetters: " + text[text.find("Error:"):][:2000])
    for m in msgs:
        if "mismatch" in m:
            core.violation(run, "%s: the letter %s" % (m["mismatch"][0], m["got"]), {"b": [], "letter": m["got"]}, m)
    jobs = [{"id": "%s%d" % (tag, i), "kind": "img", "b": b, "cells": cells, "snap": "q", "px": True,
             "keep": {"kinds": ["gfx"], "f": {"gfx": []}}} for i, b in enumerate(streams)]
    obs = core.observe(run, jobs)
    hints = qr_hints(run, jobs)
    lines, ids, byid, big = [], [], {}, 0
    for j in jobs:
        o = obs[j["id"]]
        byid[j["id"]] = j
        if core.crashed(o):
            core.violation(run, "the image ended: %s on %s" % (core.crashed(o), hexs(j["b"])), j, o)
            continue
        if errors:
            lines.append(json.dumps({"id": j["id"], "b": j["b"], "imgs": [], "off": off_paper(o["err"]), "qr": hints.get(j["id"], [])}))
            ids.append(j["id"])
            continue
        if any("c" not in g for g in o["imgs"]):
            big += 1
            continue
        imgs = [dict({k: g[k] for k in ("w", "h", "xs", "ys")}, c=sum(g["c"], [])) for g in o["imgs"]]
        lines.append(json.dumps({"id": j["id"], "b": j["b"], "imgs": imgs, "qr": hints.get(j["id"], [])}))
        ids.append(j["id"])
    run.notes["images_of_too_many_cells"] = run.notes.get("images_of_too_many_cells", 0) + big
    notes = {}
    bad = core.judge(run, "ConfReceipt", "ConfReceipt.cfg", lines, ids, env={"GLYPHS": path}, notes=notes)
    n = sum(1 for m in notes.values() if m["unknown"])
    run.notes["images_with_letters_not_in_the_table"] = run.notes.get("images_with_letters_not_in_the_table", 0) + n
    for m in bad:
        j = byid[m["job"]]
        core.violation(run, "%s in the image of %s: the specification has %s, the code %s" % (
            m["mismatch"][0], hexs(j["b"]), short(m["want"]), short(m["got"])), j, m)


AB = list(b"abg#")
AREA = lambda x, y, w, h: [ESC, 0x57] + [b for n in (x, y, w, h) for b in (n & 255, n >> 8)]


def even(w, h):
    """Is every dot of a letter w x h times as large taken from one place, whatever the rounding?
    (The code divides in 32 bit floating point; the specification does not.)"""
    import struct
    f32 = lambda v: struct.unpack("f", struct.pack("f", v))[0]
    k = max(w, h)
    return all(int(f32(x * f32((k * c) / (n * c)))) == x * k // n for n in (w, h) for c in (9, 12, 17, 24) for x in range(n * c))


def letter_keys(quick):
    keys = [(c, f, b, i, k) for c in AB + [32] for f in "ABCD" for b in (0, 1) for i in (0, 1) for k in (1, 2, 3)]
    keys += [(c, f, 0, 0, 1) for c in b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-$+/*.xyz" for f in "AB"]
    keys += [(c, "A", 0, 0, 1) for c in (0xE9, 0xA3, 0x20AC, 0xFFFD, 0x2588, 0xA0, 0x80)]
    keys += [(c, f, 0, 0, k) for c in AB for f in "AB" for k in (4, 5, 6, 7, 8)]
    return keys


def drawing(g):
    """Commands that draw, or that change how and where the next ones draw."""
    few = lambda: [g.r.choice(AB + [32]) for _ in range(g.r.randint(1, 5))]
    n16 = lambda n: [n & 255, n >> 8]
    deco = lambda: g.pick([ESC, 0x45, 1], [ESC, 0x34, 1], [ESC, 0x2D, g.pick(1, 2)], [ESC, 0x47, 1], [ESC, 0x7B, 1], [GS, 0x42, 1],
                          [ESC, 0x72, 1], [ESC, 0x4D, g.pick(1, 2, 3)], [GS, 0x28, 0x4E, 2, 0, g.pick(48, 49), g.pick(48, 49, 50, 51)],
                          [ESC, 0x45, 0], [ESC, 0x7B, 0], [GS, 0x42, 0], [ESC, 0x4D, 0], [ESC, 0x2D, 0])
    size = lambda: [GS, 0x21, g.r.randint(0, 2) * 16 + g.r.randint(0, 2)]
    return {
        "text": lambda: few(), "line": lambda: few() + [10], "styled": lambda: deco() + few(), "sized": lambda: size() + few(),
        "deco": deco, "size": size, "lf": lambda: [10], "tab": lambda: [9] + few(),
        "raster": lambda: g.raster(2, 6), "column": lambda: g.column(6), "barcode": lambda: g.barcode(g.pick(3, 5, 4, 8)),
        "barset": lambda: g.pick([GS, 0x68, g.r.randint(1, 30)], [GS, 0x77, g.r.randint(2, 6)], [GS, 0x48, g.r.randint(0, 3)]),
        "place": lambda: [ESC, 0x24] + n16(g.pick(0, 5, 40, 300, 590, 600, 608, 609, 640, g.r.randrange(609))),
        "back": lambda: [ESC, 0x65, g.pick(1, 1, 2, 3)], "feed": lambda: [ESC, 0x4A, g.r.randrange(40)], "just": lambda: [ESC, 0x61, g.r.randrange(3)],
        "space": lambda: [ESC, 0x33, g.pick(0, 5, 24, 40)], "units": lambda: [GS, 0x50, g.pick(50, 100, 203), g.pick(50, 101, 203)],
        "mode": lambda: [ESC, 0x21, g.r.randrange(256)],
        "page": lambda: [ESC, 0x4C] + AREA(g.r.randrange(60), g.r.randrange(40), g.r.randint(1, 120), g.r.randint(1, 90)),
        "area": lambda: AREA(g.r.randrange(90), g.r.randrange(60), g.r.randint(0, 140), g.r.randint(0, 90)),
        "turn": lambda: [ESC, 0x54, g.r.randrange(4)], "py": lambda: [GS, 0x24] + n16(g.r.randrange(90)),
        "px": lambda: [ESC, 0x24] + n16(g.r.randrange(120)),
        "ff": lambda: [ESC, 12] if g.chance(.6) else [ESC, 12, ESC, 12], "reset": lambda: [ESC, 0x40],
        "stored": lambda: g.gsl(g.pick(112, 112, 83, 67), g.pick([48, 1, 1, 49, 8, 0, 2, 0, g.byte(), g.byte()],
                                                               [48, 65, 65, 1, 8, 0, 2, 0, 50, g.byte(), g.byte()])),
        "show": lambda: g.pick(g.gsl(50, []), g.gsl(85, [65, 65, 1, 1]), g.gsl(69, [65, 65, 1, 1])),
        "qr": lambda: qr_setup(g, g.pick(None, 1, 2, 3), g.pick(None, 0, 3), g.pick(None, 1, 2, 5)) + qr_store(g, qr_data(g, g.pick(0, 1, 3, 9))) + QR_PRINT,
        "qrs": lambda: g.pick(QR_PRINT, qr_setup(g, size=g.pick(1, 3, 8)) + QR_PRINT),
        "cut": lambda: [GS, 0x56, 66, g.r.randrange(9)],
    }


def leaves_page(s):
    """Ends a stream in page mode with its form feed (in standard mode that would end the job)."""
    return s + [ESC, 12, ESC, 0x53, 97, 10]


def along_the_line(run, g):
    """Things at every place along the line, and past the end of it."""
    streams = []
    for x in list(range(0, 720, run.scale(24, 6))) + [570, 575, 576, 577, 590, 597, 598, 608, 609, 610]:
        for what in ([97, 10], g.raster(1, 2)):
            streams.append([ESC, 0x24, x & 255, x >> 8] + what + [98, 10])
    for n in range(0, 56, run.scale(5, 1)):
        streams.append([97] * n + [ESC, 0x45, 1, 98, ESC, 0x45, 0, 99, ESC, 0x4D, 1, 98, 98, 10])
        streams.append([ESC, 0x61, g.pick(1, 2)] + [97] * n + [ESC, 0x45, 1, 98, ESC, 0x45, 0, 99, 10])
    return streams


@check("C12")
def c12(run):
    g = G(run.rng)
    core.model_check(run, "MC_Picture", "MC_Picture.cfg", None if run.quick else {"Depth": 3})
    d = drawing(g)
    streams = [[], [10], [ESC, 0x64, 3], [ESC, 0x65, 9], [GS, 0x56, 0]]
    # every way a letter is drawn
    for f in range(4):
        for style in ([], [ESC, 0x45, 1], [ESC, 0x34, 1], [ESC, 0x45, 1, ESC, 0x34, 1]):
            for w in range(3):
                for h in range(3):
                    for more in ([], [ESC, 0x2D, g.pick(1, 2)], [ESC, 0x47, 1], [ESC, 0x7B, 1], [GS, 0x42, 1], [ESC, 0x72, 1],
                                 [ESC, 0x7B, 1, ESC, 0x2D, 1, GS, 0x42, 1, ESC, 0x47, 1]):
                        if run.quick and not g.chance(.4):
                            continue
                        streams.append([ESC, 0x4D, f, GS, 0x21, 16 * w + h] + style + more + g.pick([97, 98], [103, 32], [35, 103]) +
                                       [GS, 0x21, g.pick(0, 1, 0x12, 0x21), 97, 10, 98, 10])
    for w in range(8):
        for h in range(8):
            if (w > 2 or h > 2) and even(w + 1, h + 1):
                streams.append([ESC, 0x4D, g.pick(0, 1), GS, 0x21, 16 * w + h, g.r.choice(AB), 10, 97])
    # decorations of every size of text
    for f in (0, 1):
        for w in range(8):
            for h in range(8):
                if run.quick and not (w == h or w == 0 or g.chance(.2)):
                    continue
                for deco in ([ESC, 0x47, 1], [ESC, 0x2D, 2], g.pick([GS, 0x42, 1], [ESC, 0x7B, 1, ESC, 0x47, 1], [ESC, 0x7B, 1, ESC, 0x2D, 1])):
                    streams.append([ESC, 0x4D, f] + deco + [GS, 0x21, 16 * w + h] + ([97] if even(w + 1, h + 1) else []) + [32, 32, 10, 32, 10, 98])
    # pages larger than most, with things far from where it begins
    for q in range(4):
        for x, y, w, h in ((0, 0, 600, 500), (9, 300, 600, 700), (0, 0, 609, 1000), (100, 900, 400, 300)):
            page = [ESC, 0x4C] + AREA(x, y, w, h) + [ESC, 0x54, q]
            far = [GS, 0x24, (h - 40) & 255, (h - 40) >> 8, ESC, 0x24, (w - 60) & 255, (w - 60) >> 8]
            for inside in ([97, 10] + far + [98], [97, 98] + g.raster(2, 3) + far + [ESC, 0x54, (q + g.r.randint(1, 3)) % 4, 99, 10]):
                streams.append(leaves_page(page + inside))
    for x in range(256):
        if x not in (10, 12, 24, 27, 28, 29, 16):
            streams.append([GS, 0x42, 1, 97, x, 98, 10])
    streams.append([ESC, 0x74, 255] + list("éb£a€g█\u00a0a\u0080b".encode()) + [10])
    # things at and over the edges of the paper and of the page
    for x in (0, 1, 580, 597, 598, 599, 600, 601, 605, 608, 609, 610, 650):
        for thing in ([97, 98], g.raster(2, 3), [ESC, 0x2A, 33, 4, 0] + [255] * 12, [GS, 0x77, 2, GS, 0x6B, 5, 49, 50, 0],
                      [ESC, 0x7B, 1, 97, 98], [ESC, 0x2D, 1, 97, 32, 98]):
            streams.append([ESC, 0x24, x & 255, x >> 8] + thing + [10, 97])
    for n in (-1, 0, 1):
        for t, w in (([97], 12), ([97, 98], 24), ([ESC, 0x4D, 1, 97, 98], 18), ([GS, 0x21, 0x11, 103], 24), ([GS, 0x21, 0x20, 97, 98], 72)):
            for deco in ([], [ESC, 0x7B, 1], [ESC, 0x2D, 1], [ESC, 0x47, 1], [GS, 0x42, 1], [ESC, 0x7B, 1, GS, 0x42, 1]):
                x = 609 - w + n
                streams.append(deco + [ESC, 0x24, x & 255, x >> 8] + t + [10, 97])
                streams.append([ESC, 0x61, 2] + deco + [98] * g.r.randrange(3) + t + [10, 97])
                streams.append(leaves_page([ESC, 0x4C] + AREA(5, 3, 60, 48 + n) + [ESC, 0x54, g.r.randrange(4)] + deco +
                                           [ESC, 0x24, 60 - w + n if w < 60 else 0, 0] + t + [10, 97, 98]))
    for w in (75, 76, 77, 80):
        streams.append([GS, 0x76, 0x30, 0, w, 0, 2, 0] + [0xAA] * (2 * w) + [97])
    streams += along_the_line(run, g)
    for q in range(4):
        for x, y, w, h in ((0, 0, 60, 50), (10, 20, 60, 50), (10, 20, 30, 26), (5, 0, 20, 10), (0, 0, 13, 25), (700, 3, 40, 40)):
            page = [ESC, 0x4C] + AREA(x, y, w, h)
            for inside in ([97, 98, 103, 10, 98], g.raster(1, 5) + [97], [ESC, 0x7B, 1, 97, 98, 10, 98], [GS, 0x6B, 5, 49, 50, 0], [ESC, 0x2D, 1, 97, 32]):
                streams.append(leaves_page(page + [ESC, 0x54, q] + inside))
                streams.append(leaves_page([98, 10] + page + inside + [ESC, 0x54, q] + inside + AREA(y, x, h, w) + inside + [ESC, 0x54, (q + 1) % 4] + inside))
                streams.append(page + [ESC, 0x54, q] + inside + [12, 98, 10] + page + [98, 12])
    streams += pages(g)
    # every two (three) of them, in every order
    names = sorted(d)
    for t in itertools.product(names, repeat=2):
        for _ in range(run.scale(1, 4)):
            streams.append(sum((d[n]() for n in t), []) + [10, 97])
            streams.append(leaves_page(d["page"]() + sum((d[n]() for n in t), [])))
    some = list(itertools.product(names, repeat=3))
    for t in g.r.sample(some, run.scale(800, len(some))):
        streams.append((d["page"]() if g.chance(.5) else []) + sum((d[n]() for n in t), []) + [ESC, 12])
    for _ in range(run.scale(500, 6000)):
        s = g.stream(g.r.randint(3, 10), *d.values())
        streams.append(leaves_page(d["page"]() + s) if g.chance(.5) else s)
    # a form feed between: what was printed so far is one picture, the next begins afresh
    streams += [[97, 10, 12, 98, 10], [97, 12, 98], [12, 98], [97, 10, 12, ESC, 0x40, 98, 10], [97, 10, 12, ESC, 0x4C, 98, 12, 97, 10],
                [ESC, 0x4C, 97, ESC, 0x53, 12, 98, 12, 99, 10], [12, 12, 97]]
    for _ in range(run.scale(150, 1500)):
        s = []
        for _ in range(g.r.randint(1, 3)):
            s += g.stream(g.r.randint(1, 4), *d.values()) + [12]
        streams.append(s + g.stream(g.r.randint(0, 3), *d.values()))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_receipts(run, streams, letter_keys(run.quick))


REPLAYS["C12"] = lambda run, job: judge_receipts(run, [job["b"]], letter_keys(True))


def outside(run, g):
    """Streams that print things outside the paper or the page, or at its very edge."""
    d = drawing(g)
    n16 = lambda n: [n & 255, n >> 8]
    things = [[97], [97, 98], [32, 97], [ESC, 0x2D, 1, 97, 98], [ESC, 0x47, 1, 97], [ESC, 0x7B, 1, 97, 98], [GS, 0x42, 1, 97],
              g.raster(2, 3), [GS, 0x76, 0x30, 0, 0, 0, 0, 0], [ESC, 0x2A, 33, 2, 0] + [255] * 6, [GS, 0x6B, 5, 49, 50, 0],
              g.gsk(49, 80, [48, 97]) + SEEN + g.gsk(49, 81, [48]), [GS, 0x21, 0x11, 97, 98], [1, 97, 127], [ESC, 0x47, 1, ESC, 0x2D, 1, ESC, 0x7B, 1, 97] ]
    streams = []
    for t in things:
        for x in (0, 596, 597, 598, 604, 608, 609, 610, 620, 650, 2000):
            at = [ESC, 0x24] + n16(x)
            streams += [at + t + [10, 97, 10], [98] + at + t + [10] + at + t, at + t + [12] + at + t + [10, 98],
                        [ESC, 0x4C] + at + t + [10, 12] + at + t]
            # a word that is broken where the line is full
            streams.append(at + t + [97] * g.r.randint(51, 105) + [10])
        for x, y, w, h in ((0, 0, 0, 0), (0, 0, 24, 24), (5, 7, 30, 30), (0, 0, 12, 60), (300, 3, 400, 30), (0, 0, 30, 0), (0, 0, 0, 30), (0, 0, 1, 1)):
            for q in range(4):
                page = [ESC, 0x4C] + AREA(x, y, w, h) + [ESC, 0x54, q]
                for px, py in ((0, 0), (w, 0), (0, h), (w - 1, h - 1), (w + 3, 2), (2, h + 3)):
                    if g.chance(.25 if run.quick else 1) and px >= 0 and py >= 0:
                        put = [ESC, 0x24] + n16(px) + [GS, 0x24] + n16(py)
                        streams.append(page + put + t + g.pick([12], [ESC, 12, 10, 97], [ESC, 0x53], [12, 97], [ESC, 0x40, 97], []))
    for _ in range(run.scale(500, 6000)):
        s = []
        for _ in range(g.r.randint(1, 5)):
            s += g.r.choice([lambda: [ESC, 0x24] + n16(g.r.choice([0, 300, 590, 605, 609, 700])), lambda: g.r.choice(things), d["page"],
                             lambda: [ESC, 0x4C], lambda: [12], lambda: [ESC, 12], lambda: [ESC, 0x53], lambda: g.stream(2, *d.values())])()
            s += g.r.choice(things)
        streams.append(s)
    return dedup(streams)


def judge_outside(run, streams):
    judge_receipts(run, streams, letter_keys(True)[:1], tag="o", errors=True)


# ------------------------------------------------------------ the receipt document
def html_glyphs(run, keys):
    path = os.path.join(run.work, "glyphs.ndjson")
    with open(path, "w") as f:
        f.write("".join(json.dumps(g) + "\n" for g in letters(run, keys)))
    return path


def judge_html(run, streams, keys, tag="h"):
    path = html_glyphs(run, keys)
    jobs = [{"id": "%s%d" % (tag, i), "kind": "html", "b": b, "snap": "", "keep": {"kinds": []},
             "direct": i % 16 == 0} for i, b in enumerate([[]] + streams)]
    obs = core.observe(run, jobs)
    hints = qr_hints(run, jobs)
    lines, ids, byid, shell, kinds = [], [], {}, "", {}
    for j in jobs:
        o = obs[j["id"]]
        byid[j["id"]] = j
        if core.crashed(o):
            core.violation(run, "the document ended: %s on %s" % (core.crashed(o), hexs(j["b"])), j, o)
            continue
        docs = [htmlview.view(d) for d in o["docs"]]
        for d in docs:
            shell = shell or d["shell"]
            d["shell"] = digest(d["shell"])
            for r in d["rows"]:
                for it in r["items"]:
                    kinds[it["t"]] = kinds.get(it["t"], 0) + 1
        lines.append(json.dumps({"id": j["id"], "b": j["b"], "docs": docs, "qr": hints.get(j["id"], []), "shell": digest(shell)}))
        ids.append(j["id"])
    if "{{" in shell:
        core.violation(run, "words of the template left in the document", jobs[0], {"shell": shell})
    run.notes["things_shown_by_kind"] = kinds
    for m in core.judge(run, "ConfHtml", "ConfHtml.cfg", lines, ids, env={"GLYPHS": path}):
        j = byid[m["job"]]
        core.violation(run, "%s (thing %s) in the document of %s: the specification has %s, the code %s" % (
            m["mismatch"][0], m["at"], hexs(j["b"]), short(m["want"]), short(m["got"])), j, m)


def digest(text):
    return hashlib.sha256(text.encode("utf-8", "surrogatepass")).hexdigest()[:16]


def writing(g):
    """Texts that could be taken for something else, and everything drawing() does."""
    d = dict(drawing(g))
    words = [b"<b>", b"</p>", b"&amp;", b"&#65;", b"&lt", b"{{content}}", b"{{color-1}}", b"{{receipt-style}}", b"<!--", b"-->", b"]]>",
             b"'>", b'"', b"</style>", b"<script>", b"&", b"<", b">", b"%s {} {0}", b"</article></section>", b"\\u0041", b"`$x`"]
    d["markup"] = lambda: list(g.r.choice(words)) + ([10] if g.chance(.5) else [])
    d["odd"] = lambda: [97, g.pick(0, 1, 5, 8, 11, 13, 31, 127, 0x80, 0xA0, 0xFF), 98]
    d["utf8"] = lambda: [ESC, 0x74, 255] + list(g.pick("éü€", "שלום", "a\u0301b", "漢字", "\u202eabc", "\ufeffx", "😀", "a\u00a0b", "\u200fx").encode()) + [10]
    d["table"] = lambda: [ESC, 0x74, g.r.choice([0, 2, 16, 19, 36, 255])] + [g.r.randrange(128, 256) for _ in range(4)]
    sizes = [16 * (w - 1) + h - 1 for w in range(1, 9) for h in range(1, 9) if even(w, h)]
    d["big"] = lambda: [GS, 0x21, g.r.choice(sizes)] + [g.r.choice(AB) for _ in range(2)]
    d["colour"] = lambda: g.pick([ESC, 0x72, 1], [ESC, 0x72, 0], [GS, 0x42, 1], [GS, 0x42, 0], [GS, 0x28, 0x4E, 3, 0, g.pick(48, 49), g.pick(48, 49, 50, 51), 0])
    d["bars"] = lambda: [GS, 0x48, g.r.randrange(4), GS, 0x66, g.r.randrange(3)] + g.barcode(g.pick(2, 5, 4, 8, 7))
    return d


@check("C18")
def c18(run):
    g = G(run.rng)
    core.model_check(run, "MC_Html", "MC_Html.cfg", None if run.quick else {"MaxRows": 4})
    d = writing(g)
    streams = [[10], [ESC, 0x64, 3], [ESC, 0x65, 9], [GS, 0x56, 0], [97, 10, 98]]
    # every style of a letter
    for f in range(4):
        for style in itertools.product((0, 1), repeat=6):
            if run.quick and not g.chance(.5):
                continue
            s = [ESC, 0x4D, f, ESC, 0x45, style[0], ESC, 0x34, style[1], ESC, 0x2D, style[2] * g.pick(1, 2), ESC, 0x47, style[3],
                 ESC, 0x7B, style[4], GS, 0x42, style[5]]
            streams.append(s + [97, 98, 10, GS, 0x21, g.r.randrange(8) * 16 + g.r.randrange(8), 97, GS, 0x21, 0, 98, 10, 99])
    for w, h, up in itertools.product(range(8), range(8), (0, 1)):
        streams.append([ESC, 0x7B, up, GS, 0x21, 16 * w + h, g.r.choice(AB), GS, 0x21, 0, 97, 10, 98, 10])
    for a, b, inv in itertools.product(range(48, 52), range(48, 52), (0, 1)):
        streams.append([GS, 0x28, 0x4E, 3, 0, 48, a, 0, GS, 0x28, 0x4E, 3, 0, 49, b, 0, 97] + [GS, 0x42, inv] + [98, 10, GS, 0x6B, 5, 49, 50, 0])
    # every letter, every word
    for t in (0, 2, 16, 17, 19, 255):
        for x in range(0, 256):
            if x not in (9, 10, 12, 16, 24, 27, 28, 29) and (t == 0 or x >= 128 and (not run.quick or g.chance(.3))):
                streams.append([ESC, 0x74, t, 97, x, 98, 10])
    for _ in range(run.scale(150, 1000)):
        streams.append(sum((d["markup"]() + d[g.pick("text", "markup", "odd", "utf8", "styled")]() for _ in range(g.r.randint(1, 3))), []) + [10])
    # things on the same line, and on lines above those before
    things = ["line", "raster", "column", "barcode", "bars", "big", "markup"]
    for t in itertools.product(things, repeat=2):
        for back in ([], [ESC, 0x65, 1], [ESC, 0x65, 4], [ESC, 0x4A, 7], [10]):
            streams.append(d[t[0]]() + back + d[t[1]]() + [10, 97])
    streams += [s for s in pages(g) if not run.quick or g.chance(.5)]
    for w, h in itertools.product((0, 1, 2, 76, 77, 80), (0, 1, 2, 30)):
        streams.append([97, 10, GS, 0x76, 0x30, g.r.randrange(4), w, 0, h, 0] + [g.byte() for _ in range(w * h)] + [98, 10])
    streams += along_the_line(run, g)
    for q in range(4):
        for x, y, w, h in ((0, 0, 60, 50), (10, 20, 60, 50), (5, 0, 20, 10), (0, 0, 13, 25), (0, 0, 0, 9), (700, 3, 40, 40)):
            page = [ESC, 0x4C] + AREA(x, y, w, h)
            for inside in ([97, 98, 103, 10, 98], g.raster(1, 5) + [97], [ESC, 0x7B, 1, 97, 98], [GS, 0x42, 1, GS, 0x6B, 5, 49, 50, 0], []):
                streams.append(leaves_page(page + [ESC, 0x54, q] + inside))
                streams.append(leaves_page([98, 10] + page + inside + [ESC, 0x54, q] + inside + [ESC, 12] + inside))
    names = sorted(d)
    for t in itertools.product(names, repeat=2):
        for _ in range(run.scale(1, 4)):
            streams.append(sum((d[n]() for n in t), []) + [10, 97])
            streams.append(leaves_page(d["page"]() + sum((d[n]() for n in t), [])))
    for _ in range(run.scale(900, 12000)):
        s = g.stream(g.r.randint(3, 10), *d.values())
        streams.append(leaves_page(d["page"]() + s) if g.chance(.35) else s)
    # a form feed between: the next document begins afresh
    streams += [[97, 10, 12, 98, 10], [97, 12, 98], [12, 98], [97, 10, 12, ESC, 0x40, 98, 10], [97, 10, 12, ESC, 0x4C, 98, 12, 97, 10],
                [ESC, 0x4C, 97, ESC, 0x53, 12, 98, 12, 99, 10], [12, 12, 97], g.raster(2, 30) + [12] + g.raster(2, 3), [97, 10, 10, 12, 98, 12, 97]]
    for _ in range(run.scale(100, 1000)):
        s = []
        for _ in range(g.r.randint(1, 3)):
            s += g.stream(g.r.randint(1, 4), *d.values()) + [12]
        streams.append(s + g.stream(g.r.randint(0, 3), *d.values()))
    streams = dedup(streams)
    note_streams(run, streams)
    judge_html(run, streams, letter_keys(run.quick))


def drawn(run, streams, special=(), images=260, documents=140):
    """Some of a check's own streams, drawn to an image and to a document: what the events say is
    then also what is seen."""
    whole = lambda s: len(s) < 700 and not huge(s) and all(bytes(s[m.end() + s[m.start() + 3] - 3:][:2]) == bytes(SEEN)
                                                           for m in QR_STORE.finditer(bytes(s)))
    some = [s for s in dedup(streams) if whole(s)]
    r = random.Random(run.seed)
    few = dedup(list(special) + r.sample(some, min(len(some), run.scale(images, 8 * images))))
    keys = letter_keys(True)[:3]
    run.notes["streams_also_drawn_to_images"] = len(few)
    judge_receipts(run, few, keys, tag="di")
    pages = list(special)
    pages = r.sample(pages, min(len(pages), run.scale(documents, 8 * documents)))
    few = pages + few[len(special):][:run.scale(documents, 8 * documents)]
    run.notes["streams_also_drawn_to_documents"] = len(few)
    judge_html(run, few, keys, tag="dh")


COATS = [[], [ESC, 0x2D, 2, ESC, 0x47, 1], [GS, 0x42, 1], [ESC, 0x72, 1], [GS, 0x28, 0x4E, 2, 0, 48, 51], [ESC, 0x7B, 1], [ESC, 0x7B, 1, GS, 0x42, 1], [ESC, 0x61, 1, ESC, 0x72, 1]]


def dressed(g, things, share):
    """Things under every colour and turn, on the paper and on pages of every direction."""
    out = []
    for t, c, place in itertools.product(things, COATS, range(8)):
        if g.chance(share):
            if place < 3:
                out.append([ESC, 0x61, place] + c + t + [10, 97])
            else:
                page = [ESC, 0x4C] + AREA(10, 20, 180, 150) + [ESC, 0x54, place % 4]
                out.append(leaves_page(page + c + t + [10, 97]))
    return out


def pages(g):
    """Pages that are turned, printed, kept, begun again and left, with something on them."""
    out = []
    inside = lambda q: g.pick([97, 98, 10], [97], g.raster(1, 5) + [97], [GS, 0x6B, 5, 49, 50, 0], [ESC, 0x24, 20, 0, 98])
    for q in range(4):
        for p in range(4):
            page = [ESC, 0x4C] + AREA(g.pick(0, 10), g.pick(0, 20), 60, 50) + [ESC, 0x54, q] + inside(q)
            new = [ESC, 0x4C] + AREA(g.pick(0, 10), g.pick(0, 20), 60, 50)
            for more in ([ESC, 0x54, p] + inside(p), new + inside(p), new + [ESC, 0x54, p] + inside(p), [ESC, 0x53] + new + inside(p), [ESC, 0x53, 98] + new + inside(p), [ESC, 0x53, ESC, 0x24, 30, 0] + new + inside(p),
                         [10] + new + inside(p), [10, ESC, 0x53, 10] + new + [ESC, 0x54, p] + inside(p), [10, 12] + new + inside(p), [ESC, 12, ESC, 0x54, p] + inside(p), [ESC, 0x4C, ESC, 0x54, p] + inside(p),
                         [ESC, 0x54, p] + inside(p) + [ESC, 0x54, q] + inside(q), [ESC, 0x53, 98, 10, ESC, 0x4C, ESC, 0x54, p] + inside(p),
                         [12, 98, 10, ESC, 0x4C] + AREA(g.pick(0, 5), 3, 50, 40) + [ESC, 0x54, p] + inside(p),
                         AREA(g.pick(0, 30), g.pick(0, 40), 40, 60) + [ESC, 0x54, p] + inside(p)):
                for end in ([ESC, 12, ESC, 12], [12, 98, 10]):
                    out.append(g.pick([], [98], [ESC, 0x24, 30, 0]) + page + more + end)
    return out


REPLAYS["C18"] = lambda run, job: judge_html(run, [job["b"]], letter_keys(True))
