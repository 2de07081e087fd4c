"""Seeded generators of ESC/POS streams."""
ESC, GS, FS, DLE, CAN = 0x1B, 0x1D, 0x1C, 0x10, 0x18
WORDS = b"abcdefghijklmnopqrstuvwxyz0123456789"

OPENERS = [bytes(x) for x in (
    [GS, 0x6B], [ESC, 0x2A], [CAN, 0x40], [0x0D], [GS, 0x28, 0x6B], [ESC, 0x32], [GS, 0x56], [0x0C],
    [GS, 0x28, 0x4C], [9], [ESC, 0x40], [GS, 0x38, 0x4C], [10], [ESC, 0x63, 3], [ESC, 0x64], [ESC, 0x4A],
    [ESC, 0x65], [ESC, 0x63, 4], [ESC, 0x70], [GS, 0x76, 0x30], [GS, 0x28, 0x48], [ESC, 0x24],
    [ESC, 0x72], [GS, 0x68], [GS, 0x77], [GS, 0x42], [GS, 0x21], [ESC, 0x74], [ESC, 0x47], [ESC, 0x45],
    [ESC, 0x4D], [GS, 0x50], [GS, 0x66], [GS, 0x48], [ESC, 0x52], [ESC, 0x34], [ESC, 0x61], [ESC, 0x33],
    [ESC, 0x63, 5], [ESC, 0x3D], [ESC, 0x21], [GS, 0x5C], [GS, 0x62], [ESC, 0x44], [ESC, 0x2D],
    [ESC, 0x7B], [GS, 0x49], [ESC, 0x4C], [GS, 0x24], [ESC, 0x57], [ESC, 0x54], [ESC, 0x0C],
    [ESC, 0x53], [GS, 0x28, 0x4E], [GS, 0x28, 0x47])]


def upc_check(d):
    """The check digit of eleven digits."""
    s = sum((x - 48) * (3 if i % 2 == 0 else 1) for i, x in enumerate(d))
    return 48 + (10 - s % 10) % 10


def upce_expand(e):
    """Number system and six digits: the eleven they stand for."""
    z = e[6] - 48
    if z <= 2:
        return e[:3] + [e[6]] + [48] * 4 + e[3:6]
    if z == 3:
        return e[:4] + [48] * 5 + e[4:6]
    if z == 4:
        return e[:5] + [48] * 5 + e[5:6]
    return e[:6] + [48] * 4 + e[6:7]


class G:
    def __init__(self, rng):
        self.r = rng

    # ------------------------------------------------------------ basics
    def chance(self, p):
        return self.r.random() < p

    def pick(self, *xs):
        return self.r.choice(xs)

    def byte(self):
        return self.r.randrange(256)

    def edge(self):
        """A byte, biased to the values commands care about."""
        return self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 24, 27, 29, 48, 49, 50, 51, 52, 65, 97, 98,
                              127, 128, 254, 255, self.byte(), self.byte(), self.byte()])

    def bytes(self, n):
        return [self.byte() for _ in range(n)]

    def payload(self, n):
        """n bytes that look like commands."""
        out = []
        while len(out) < n:
            out += list(self.r.choice(OPENERS)) if self.chance(.6) else [self.edge()]
        return out[:n]

    def word(self, lo=1, hi=8):
        return [self.r.choice(WORDS) for _ in range(self.r.randint(lo, hi))]

    def line(self, n):
        """About n characters of words."""
        out = []
        while len(out) < n:
            out += self.word(1, self.r.choice([3, 6, 10, 60])) + [32] * self.r.choice([1, 1, 1, 2])
        return out[:n]

    def line_(self):
        return self.line(self.r.randint(1, 40))

    def one(self, *ops):
        return list(self.r.choice(ops))

    # ---------------------------------------------------------- commands
    def style(self):
        """A command that sets the style of text."""
        n = self.edge()
        onoff = self.pick(0, 1, 48, 49, 2, 255, 254, n)
        return self.r.choice([
            lambda: [ESC, 0x21, self.r.choice([0, 1, 8, 16, 32, 64, 128, 57, 121, self.byte()])],
            lambda: [ESC, 0x45, onoff],
            lambda: [ESC, 0x34, onoff],
            lambda: [ESC, 0x2D, self.pick(0, 1, 2, 48, 49, 50, 3, n)],
            lambda: [ESC, 0x47, onoff],
            lambda: [ESC, 0x7B, onoff],
            lambda: [ESC, 0x4D, self.pick(0, 1, 2, 3, 4, 48, 49, 50, 51, 52, 97, 98, 5, n)],
            lambda: [ESC, 0x72, self.pick(0, 1, 48, 49, n)],
            lambda: [GS, 0x42, self.pick(0, 1, 0, 1, 2, n)],
            lambda: [GS, 0x62, onoff],
            lambda: self.effects(),
            lambda: self.size(),
        ])()

    def size(self, most=7):
        return [GS, 0x21, (self.r.randint(0, most) << 4) | self.r.randint(0, most) | (0x88 if self.chance(.1) else 0)]

    def effects(self):
        fn = self.pick(48, 49, 50, 51, 0)
        d = [48 if self.chance(.5) else self.edge(), self.pick(48, 49, 50, 51, self.edge())][1:]
        if fn == 50 or self.chance(.2):
            d.append(self.pick(0, 1, 48, 49, self.edge()))
        p = [fn] + d
        p = p[:self.r.randint(0, 3)] if self.chance(.1) else p
        return [GS, 0x28, 0x4E, len(p), 0] + p

    def charset(self):
        return self.pick([ESC, 0x74, self.pick(0, 1, 2, 3, 4, 5, 11, 12, 13, 255, self.byte())],
                         [ESC, 0x52, self.pick(*range(18), 66, 70, 75, 82, self.byte())])

    def justify(self):
        return [ESC, 0x61, self.pick(0, 1, 2, 48, 49, 50, 1, 2, self.edge())]

    def feed(self):
        return self.r.choice([
            lambda: [ESC, 0x64, self.pick(0, 1, 2, 3, 10, 255, self.byte())],
            lambda: [ESC, 0x65, self.pick(0, 1, 2, 3, 10, self.byte())],
            lambda: [ESC, 0x4A, self.pick(0, 1, 24, 255, self.byte())],
            lambda: [10],
            lambda: [GS, 0x56] + self.pick([0], [1], [48], [49], [65, self.byte()], [66, self.byte()],
                                           [97, 3], [98, 9], [103, 1], [104, 200], [2, 2]),
        ])()

    def spacing(self):
        return self.pick([ESC, 0x32], [ESC, 0x33, self.edge()], [ESC, 0x33, self.pick(0, 10, 24, 60)])

    def motion(self):
        return [GS, 0x50, self.edge(), self.edge()]

    def position(self):
        return self.pick([ESC, 0x24, self.byte(), self.pick(0, 0, 1, 2)],
                         [GS, 0x24, self.byte(), self.pick(0, 0, 1)],
                         [GS, 0x5C, self.byte(), self.pick(0, 0, 255)])

    def tabs(self):
        return [ESC, 0x44, self.edge() % 40, self.edge() % 40]

    def pages(self):
        return self.r.choice([
            lambda: [ESC, 0x4C], lambda: self.area(), lambda: self.area(), lambda: self.direction(),
            lambda: self.direction(), lambda: [ESC, 0x0C], lambda: [ESC, 0x53], lambda: self.position()])()

    def area(self):
        def n(hi):
            return self.pick(0, self.byte(), self.byte())
        return [ESC, 0x57, self.byte(), 0, self.byte(), 0,
                self.byte(), self.pick(0, 0, 1), self.byte(), self.pick(0, 0, 1)]

    def direction(self):
        return [ESC, 0x54, self.pick(0, 1, 2, 3, 48, 49, 50, 51, self.edge())]

    # ------------------------------------------------------------ images
    def raster(self, w=3, h=9, short=.1):
        w, h = self.r.randint(0 if self.chance(.1) else 1, w), self.r.randint(0 if self.chance(.1) else 1, h)
        d = self.bytes(w * h)
        return [GS, 0x76, 0x30, self.pick(0, 1, 2, 3, 48, 49, 50, 51, self.edge()), w, 0, h, 0] + d

    def column(self, n=12):
        n = self.r.randint(0 if self.chance(.1) else 1, n)
        m = self.pick(0, 1, 32, 33, 0, 1, 32, 33, self.edge())
        return [ESC, 0x2A, m, n, 0] + self.bytes(n * (3 if m in (32, 33) else 1))

    def gsl(self, fn, d, large=False, m=48):
        n = len(d) + 2
        return ([GS, 0x38, 0x4C, n & 255, (n >> 8) & 255, (n >> 16) & 255, n >> 24, m, fn] if large
                else [GS, 0x28, 0x4C, n & 255, n >> 8, m, fn]) + d

    def stored(self, keys=b"AB", fns=None, off=.08):
        """Functions of GS ( L / GS 8 L."""
        fn = self.r.choice(fns or [65, 66, 67, 68, 69, 81, 82, 83, 84, 85, 112, 113, 112, 113, 50, 2, 69, 85, 67, 83])
        w, h = self.pick(1, 3, 7, 8, 9, 16, 20), self.pick(1, 2, 3, 7, 8, 9, 16)
        key = [self.r.choice(keys), self.r.choice(keys)]
        if self.chance(.06):
            key[self.r.randrange(2)] ^= 1 << self.r.randrange(8)
        if fn in (67, 83, 68, 84):
            col = fn in (68, 84)
            per = (-(-h // 8) * w) if col else (-(-w // 8) * h)
            colors = self.pick(1, 1, 2, 3)
            d = [48] + key + [colors, w, 0, h, 0]
            for _ in range(colors):
                d += [self.pick(48, 49, 50, 51)] + self.bytes(per)
        elif fn in (112, 113):
            if self.chance(.5):
                w, h = 8, 8
            per = (-(-h // 8) * w) if fn == 113 else (-(-w // 8) * h)
            d = [48, self.pick(1, 1, 2), self.pick(1, 1, 2), self.pick(49, 50, 51, 48), w, 0, h, 0] + self.bytes(per)
        elif fn in (66, 82):
            d = key
        elif fn in (69, 85):
            d = key + [self.pick(1, 1, 2, 2, 0, 3, 48, 50, 51, 255), self.pick(1, 1, 2, 2, 0, 3, 48, 50, 51, 255)][:self.pick(2, 2, 2, 2, 2, 2, 1, 0)]
        elif fn in (65, 81):
            d = list(b"CLR")
        elif fn in (49, 1):
            d = self.pick([50, 50], [51, 51], [50, 51], [51], [])
        else:
            d = []
        if self.chance(off):
            d = self.pick(d[:-1], d + [self.byte()], d[:self.r.randrange(len(d) + 1)])
        return self.gsl(fn, d, self.chance(.3))

    # ---------------------------------------------------------- barcodes
    def barcode(self, kind=None):
        k = self.r.randrange(9) if kind is None else kind
        digits = lambda n: [self.r.choice(b"0123456789") for _ in range(n)]
        over = lambda chars, n: [self.r.choice(chars) for _ in range(n)]
        if k == 0:
            d = digits(self.pick(11, 12, 12, 12, 13, 10))
        elif k == 1:
            d = self.upce()
        elif k == 2:
            d = digits(self.pick(12, 12, 13, 11, 14))
        elif k == 3:
            d = digits(self.pick(7, 7, 8, 6))
        elif k == 4:
            d = over(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%*", self.r.randint(1, 12))
        elif k == 5:
            d = digits(self.r.randint(1, 14))
        elif k == 6:
            s = self.r.choice(b"ABCD")
            d = [s] + over(b"0123456789-$:/.", self.r.randint(1, 9)) + [self.r.choice(b"ABCD")]
        elif k == 7:
            d = over(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%", self.r.randint(1, 20))
        else:
            d = self.code128()
        if self.chance(.08):
            d = d[:self.r.randrange(len(d) + 1)] + [self.r.choice(range(1, 256))] + d[self.r.randrange(len(d) + 1):]
        if k < 7 and self.chance(.5):
            return [GS, 0x6B, k] + [x for x in d if x] + [0]
        d = d[:255]
        return [GS, 0x6B, 65 + k, len(d)] + d

    def upce(self):
        digits = lambda n: [self.r.choice(b"0123456789") for _ in range(n)]
        c = self.r.randrange(6)
        if c == 0:
            d = digits(self.pick(6, 7, 7, 9))
            if len(d) == 7 and self.chance(.7):
                d[0] = self.r.choice(b"01")
                d = d + ([upc_check(upce_expand(d))] if self.chance(.8) else digits(1))
            return d
        ns = self.pick([48], [48], [49])
        if c == 1:
            body = digits(2) + [self.r.choice(b"012"), 48, 48] + [48, 48] + digits(3)
        elif c == 2:
            body = digits(3) + [48, 48] + [48, 48, 48] + digits(2)
        elif c == 3:
            body = digits(4) + [48] + [48, 48, 48, 48] + digits(1)
        elif c == 4:
            body = digits(5) + [48, 48, 48, 48] + [self.r.choice(b"56789")]
        else:
            body = digits(10)
        d = ns + body
        return d + ([] if self.chance(.5) else [upc_check(d)] if self.chance(.8) else digits(1))

    def code128(self):
        out = []
        for _ in range(self.r.randint(1, 3)):
            s = self.r.choice(b"ABC")
            out += [0x7B, s]
            if s == 0x43:
                for _ in range(self.r.randint(1, 4)):
                    out += [self.r.choice(b"0123456789"), self.r.choice(b"0123456789")]
                    if self.chance(.12):
                        out += [0x7B, 0x31]
            else:
                chars = b"ABCXYZ0189 !#%+-./:;<=>?@" + (b"abcxyz`|~" if s == 0x42 else b"")
                for _ in range(self.r.randint(1, 6)):
                    if self.chance(.1):
                        out += [0x7B, self.r.choice(b"1234{S")]
                    out.append(self.r.choice(chars))
        return out if self.chance(.92) else out[2:]

    def barset(self):
        return self.pick([GS, 0x68, self.edge()], [GS, 0x77, self.pick(0, 1, 2, 3, 4, 5, 6, 7, self.edge())],
                         [GS, 0x48, self.pick(0, 1, 2, 3, 48, 49, 50, 51, self.edge())],
                         [GS, 0x66, self.pick(0, 1, 48, 49, 2, 97, self.edge())])

    # ------------------------------------------------- two dimensional codes
    def gsk(self, m, fn, d):
        n = len(d) + 2
        return [GS, 0x28, 0x6B, n & 255, n >> 8, m, fn] + d

    def code2dset(self):
        m, fn = self.r.choice([(48, 65), (48, 66), (48, 67), (48, 69), (48, 70), (49, 65), (49, 67), (49, 69),
                               (50, 65), (51, 67), (51, 71), (52, 67), (52, 71), (52, 72), (53, 66), (53, 67),
                               (53, 69), (54, 66), (54, 67), (49, 65), (49, 69), (49, 67)])
        return self.gsk(m, fn, [self.edge() for _ in range(self.pick(0, 1, 1, 2, 2, 3, 4))])

    # ------------------------------------------------------------ anything
    def quiet(self):
        """Commands with no effect on what is printed."""
        return self.pick([ESC, 0x63, 3, self.edge()], [ESC, 0x63, 4, self.edge()], [ESC, 0x63, 5, self.edge()],
                         [ESC, 0x70] + self.bytes(3), [ESC, 0x3D, self.edge()], [GS, 0x49, self.edge()],
                         [CAN, 0x40], self.gsl(48, []), self.gsl(64, self.bytes(3)), self.gsk(49, 82, [48]),
                         [GS, 0x28, 0x48, 6, 0, 48, 48] + self.bytes(4), [GS, 0x28, 0x47] + self.bytes(4),
                         self.gsk(47, 80, self.bytes(3)), self.gsl(99, self.bytes(2)))

    def any(self):
        return self.r.choice([
            lambda: self.line(self.r.randint(1, 70)), lambda: self.line(self.r.randint(1, 12)) + [10],
            self.style, self.style, self.charset, self.justify, self.feed, self.spacing, self.motion, self.position,
            self.tabs, self.pages, self.raster, self.column, self.stored, self.stored, self.barcode, self.barcode,
            self.barset, self.code2dset, self.quiet, lambda: [9], lambda: [13], lambda: [10],
            lambda: list(self.r.choice(OPENERS)) + [self.edge() for _ in range(self.pick(0, 1, 2, 3))],
            lambda: [self.r.choice([ESC, GS, FS, DLE, CAN]), self.edge()], lambda: self.bytes(self.r.randint(1, 6)),
        ])()

    def stream(self, n, *fs):
        out = []
        for _ in range(n):
            out += self.r.choice(fs)()
        return out


def bounded(b, limit=6000):
    """No stream with a declared picture so large that drawing it is out of scope."""
    return b if len(b) <= limit else b[:limit]
