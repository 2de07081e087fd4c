"""C03 and C04: the .thermal text format."""
from .props import *


def judge_thermal(run, jobs, obs, what):
    lines, ids, byid = [], [], {}
    for j in jobs:
        o = obs[j["id"]]
        byid[j["id"]] = j
        if core.crashed(o):
            core.violation(run, "the code under test ended: %s on %s" % (core.crashed(o), what(j)), j, o)
            continue
        if j["kind"] == "parse":
            lines.append(json.dumps({"id": j["id"], "b": j["b"], "t": o["text"], "bytes": o["back"],
                                     "names": [name_of(c) for c in o["cmds"]]}))
        else:
            lines.append(json.dumps({"id": j["id"], "t": j["t"], "bytes": o["bytes"]}))
        ids.append(j["id"])
    for m in core.judge(run, "ConfThermal", "ConfThermal.cfg", lines, ids):
        core.violation(run, "%s at character %s of %s: the specification has %s, the code %s" % (
            m["mismatch"], m["at"], what(byid[m["job"]]), short(m["want"]), short(m["got"])), byid[m["job"]], m)


def name_of(c):
    """What the comment of a command has to say: its name."""
    return [ord(x) for x in ("Unknown command" if c["k"] == "Unknown" else c["n"].strip())]


def shown(cps):
    return repr("".join(map(chr, cps)))[:240]


def O(s):
    return [ord(c) for c in s]


def judge_round_trip(run, jobs):
    obs = core.observe(run, jobs)
    judge_thermal(run, jobs, obs, lambda j: hexs(j["b"]))
    # the commands of what was read back are the commands of the stream
    lines, ids = [], []
    for j in jobs:
        o = obs[j["id"]]
        if not core.crashed(o):
            lines.append(json.dumps({"id": j["id"], "b": j["b"],
                                     "cmds": [{k: c[k] for k in ("k", "c", "d", "bc", "bd")} for c in o["cmds2"]]}))
            ids.append(j["id"])
    byid = {j["id"]: j for j in jobs}
    for m in core.judge(run, "ConfParser", "ConfParser.cfg", lines, ids):
        report(run, m, byid[m["job"]])


@check("C03")
def c03(run):
    g = G(run.rng)
    core.model_check(run, "MC_ThermalWrite", "MC_ThermalWrite.cfg", None if run.quick else {"MaxLen": 5})
    streams = []
    for alpha, n in (([34, 92, 97, 10, 32], run.scale(4, 6)), ([27, 64, 34, 195, 169, 0], run.scale(4, 5)),
                     ([39, 47, 34, 92, 29, 107, 4], run.scale(3, 5)), ([29, 107, 73, 2, 34, 0, 9], run.scale(3, 5)),
                     ([48, 120, 49, 32, 16, 24], run.scale(4, 5))):
        for k in range(n + 1):
            streams += [list(t) for t in itertools.product(alpha, repeat=k)]
    for x in range(256):
        streams += [[x], [97, x, 98], [x, x, 34], [ESC, x, 97], [GS, x, 97, 98, 10], [FS, x], [DLE, x, x], [CAN, x]]
        streams += [[ESC, 0x21, x, 97], [GS, 0x6B, 4, 65, x, 66, 0, 97], [GS, 0x6B, 73, 3, x, 92, 34, 97], [ESC, 99, x, x, 10],
                    [GS, 0x28, 0x6B, 5, 0, 49, 80, 48, x, 34, 10], [GS, 0x28, 0x4E, 3, 0, x, x, 34, 10], [GS, 0x56, x, x, 10],
                    [GS, 0x28, 0x48, 4, 0, 48, 48, x, 34, 10], [GS, 0x28, 0x4C, 6, 0, 48, 69, x, 34, 1, 1, 65],
                    [GS, 0x76, 0x30, x, 1, 0, 1, 0, x, 10], [ESC, 0x2A, x, 1, 0, x, x, x, 10], [GS, 0x6B, x, 49, 50, 0, 97]]
    for n in list(range(0, 12)) + [30, 31, 32, 33, 63, 64, 65, 100, 200, 255]:
        for fill in (27, 34, 92, 0, 10, 255, 39, 48):
            d = [fill] * n
            streams += [[GS, 0x76, 0x30, 0, 1, 0, n, 0] + d + [65], [GS, 0x6B, 73, n] + d + [65],
                        [GS, 0x28, 0x6B, n + 3 & 255, n + 3 >> 8, 49, 80, 48] + d + [65],
                        [GS, 0x38, 0x4C, n + 2 & 255, n + 2 >> 8, 0, 0, 48, 112] + d + [65],
                        [ESC, 0x2A, 1, n, 0] + d + [65], [97] + d + [98]]
    texts = [b"NUL", b"ESC", b"0x41", b"0xZZ", b"12", b"256", b"'// no", b"a  b", b" a", b"a ", b"\\", b'"', b'\\"', b'"\\',
             "é€😀".encode(), "é".encode()[:1], b"\xff\xfe", "\u00a0\u2028x\u3000".encode(), b"+5", b"LF \n", b"\x85",
             "\u0085".encode(), "\u2029".encode(), "\ufeffx".encode(), b"\\\\\"\\\"", b"'//", b"//", b"\x7f"]
    for a in texts:
        for b in texts:
            streams.append(list(a + b))
            streams.append(list(a) + g.one([10], [9], [ESC, 0x40], [13, 10]) + list(b))
    for _ in range(run.scale(1200, 20000)):
        streams.append(g.stream(g.r.randint(1, 8), g.any, lambda: list(g.r.choice(texts))))
    for _ in range(run.scale(600, 6000)):
        streams.append(g.bytes(g.r.randint(1, 40)))
    for _ in range(run.scale(200, 3000)):
        o = list(g.r.choice(OPENERS)) + [g.edge() for _ in range(9)] + list(g.r.choice(texts))
        streams += [o[:k] for k in range(1, len(o), 2)]
    for n, fill in ((1025, 34), (2047, 92), (2049, 255)):   # data and texts longer than most
        d = [g.pick(fill, fill, 34, 0, 200, 97) for _ in range(n)]
        streams += [[GS, 0x38, 0x4C, n + 2 & 255, (n + 2) >> 8 & 255, (n + 2) >> 16, 0, 48, 112] + d + [65, 10],
                    [97 if x in (27, 0) else x for x in d] + [10, 98]]
        streams.append([GS, 0x28, 0x6B, n + 3 & 255, n + 3 >> 8, 49, 80, 48] + d + [65])
    streams = dedup(streams)
    note_streams(run, streams)
    judge_round_trip(run, [{"id": "t%d" % i, "kind": "parse", "b": b, "thermal": True} for i, b in enumerate(streams)])


WORDS_TF = ["NUL", "ESC", "HT", "LF", "FF", "CR", "GS", "FS", "DLE", "CAN", "nul", "ESCAPE", "ES", "0x1B", "0x1b", "0X1B", "0x",
            "0x100", "0x0FF", "0x+F", "0xG", "0", "00", "007", "255", "256", "+5", "-5", "+", "1.5", "1e1", '"a b"', '""', '"\\\\"',
            '"\\""', '"\\n"', "'//", "'// \"x", "é", "\u20ac", "\U0001F600", '"é\u20ac\U0001F600"', "a'//", "\\", "\\\"", '"ESC"',
            '" "', 'LF"x"', '"x"LF', '0x41"B"67', '"0x41"', '"12"', '"\\\\\\\\"', '"\\\\\\""', '"']
SEPS_TF = [" ", "  ", "\t", "\n", "\r\n", "\r", "", "\x0c", "\x0b", "\u00a0", "\u0085", "\u2028", " \n ", "\n\n", "\n'//", " '//"]


@check("C04")
def c04(run):
    g = G(run.rng)
    core.model_check(run, "MC_ThermalFile", "MC_ThermalFile.cfg", None if run.quick else {"MaxLen": 5})
    texts = []
    for alpha, n in (('"\\ a\n', 6), ('"\\ 1', 6), ("0x+1fG ", 5), ("'/ \n\"a", 5), ('"\r\n a\x0b', 5), ('9+25 "', 5),
                     ("é\u00a0\u3000 \"\u0085", 5), ("ESC \"0", 5)):
        for k in range((n - 1 if run.quick else n) + 1):
            texts += [O(t) for t in itertools.product(alpha, repeat=k)]
    for a in WORDS_TF:
        texts += [O(a), O(" " + a), O(a + "\r\n"), O(a + "\r"), O("'//" + a + "\n" + a)]
        for b in WORDS_TF:
            for s in (SEPS_TF if not run.quick else g.r.sample(SEPS_TF, 3)):
                texts.append(O(a + s + b))
    for i in range(256):
        texts += [O("%d" % i), O("0x%02X" % i), O("0x%x" % i), O('"%s"' % chr(i)), O("a%sb" % chr(i)), O("%s\na" % chr(i))]
    for c in (0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0xFFFD, 0x10000, 0x10FFFF, 0x1680, 0x2000, 0x200A, 0x200B, 0x2029, 0x202F,
              0x205F, 0xFEFF, 0x180E):
        texts += [O('"%s"' % chr(c)), [c], [97, c, 98], [c, 10, 97], [c, 34, 97]]
    chars = O('aB"\\ \n\t\r0x19\'/é\u00a0\u20ac')
    for _ in range(run.scale(3000, 40000)):
        t = []
        for _ in range(g.r.randint(1, 12)):
            t += O(g.r.choice(WORDS_TF)) if g.chance(.4) else [g.r.choice(chars) for _ in range(g.r.randint(1, 5))]
            t += O(g.r.choice(SEPS_TF))
        texts.append(t)
    for _ in range(run.scale(10, 60)):
        texts.append([g.r.choice(chars) for _ in range(3000)])
    texts = [t for t in dedup(texts) if not any(0xD800 <= c < 0xE000 for c in t)]
    run.notes["texts"] = len(texts)
    for t in texts[:: len(texts) // 3][:3]:
        run.sample(shown(t))
    jobs = [{"id": "t%d" % i, "kind": "tf", "t": t} for i, t in enumerate(texts)]
    judge_thermal(run, jobs, core.observe(run, jobs), lambda j: shown(j["t"]))


REPLAYS["C03"] = lambda run, job: judge_round_trip(run, [job])
REPLAYS["C04"] = lambda run, job: judge_thermal(run, [job], core.observe(run, [job]), lambda j: shown(j["t"]))
