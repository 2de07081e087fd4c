"""What a reader of a receipt document sees: the rows of the receipt, the style everything in them ends
up with, pictures decoded.  A small part of HTML, CSS and PNG, enough for the documents of the html
renderer; whatever it does not know it reports as something odd instead of guessing."""
import base64
import re
import struct
import zlib
from html.parser import HTMLParser

VOID = {"meta", "img", "br", "link", "hr", "input"}


class Node:
    def __init__(self, tag, attrs, up):
        self.tag, self.attrs, self.up, self.kids = tag, attrs, up, []
        self.classes = (attrs.get("class") or "").split()

    def find(self, tag):
        if self.tag == tag:
            return [self]
        return [n for k in self.kids if isinstance(k, Node) for n in k.find(tag)]

    def text(self):
        return "".join(k.text() if isinstance(k, Node) else k for k in self.kids)


class Tree(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = self.at = Node("", {}, None)

    def handle_starttag(self, tag, attrs):
        if tag == "p" and self.at.tag == "p":
            self.at = self.at.up
        n = Node(tag, dict(attrs), self.at)
        self.at.kids.append(n)
        if tag not in VOID:
            self.at = n

    def handle_startendtag(self, tag, attrs):
        self.at.kids.append(Node(tag, dict(attrs), self.at))

    def handle_endtag(self, tag):
        n = self.at
        while n and n.tag != tag:
            n = n.up
        if n and n.up:
            self.at = n.up

    def handle_data(self, data):
        self.at.kids.append(data)

    def handle_decl(self, decl):
        self.at.kids.append(Node("!" + decl, {}, self.at))

    def handle_comment(self, data):
        self.at.kids.append(Node("!--", {}, self.at))

    def handle_pi(self, data):
        self.at.kids.append(Node("!?", {}, self.at))

    def unknown_decl(self, data):
        self.at.kids.append(Node("![", {}, self.at))


def tree(doc):
    t = Tree()
    # what a reader of html does before anything else with line ends, and with nul wherever it stands
    t.feed(doc.replace("\r\n", "\n").replace("\r", "\n").replace("\0", ""))
    t.close()
    return t.root


# ------------------------------------------------------------------------ css
def declarations(text):
    out = []
    for d in re.sub(r"/\*.*?\*/", "", text, flags=re.S).split(";"):
        if ":" in d:
            k, v = d.split(":", 1)
            out.append((k.strip().lower() if not k.strip().startswith("--") else k.strip(), v.strip()))
    return out


def rules(css):
    """[(selector as list of compound selectors, specificity, order, declarations)] of a screen."""
    css = re.sub(r"/\*.*?\*/", "", css, flags=re.S)
    out, i = [], 0
    while True:
        m = re.compile(r"\s*([^{}]+)\{").match(css, i)
        if not m:
            break
        head, i = m.group(1).strip(), m.end()
        depth, j = 1, i
        while depth and j < len(css):
            depth += {"{": 1, "}": -1}.get(css[j], 0)
            j += 1
        body, i = css[i:j - 1], j
        if head.startswith("@"):
            if not head.startswith("@media print"):
                out.append(("?" + head, None, None, None))
            continue
        for s in head.split(","):
            parts = [re.findall(r"[.#:]?[^.#:\s]+", c) for c in s.split()]
            spec = (sum(1 for p in parts for x in p if x[0] == "#"), sum(1 for p in parts for x in p if x[0] in ".:"),
                    sum(1 for p in parts for x in p if x[0] not in ".#:*"))
            out.append((parts, spec, len(out), declarations(body)))
    return out


def simple(n, compound):
    return all(x == "*" or (x[1:] in n.classes if x[0] == "." else x[1:] == n.attrs.get("id") if x[0] == "#"
                            else False if x[0] == ":" else x == n.tag) for x in compound)


def matches(n, parts):
    if not simple(n, parts[-1]):
        return False
    rest, a = parts[:-1], n.up
    while rest and a:
        if simple(a, rest[-1]):
            rest = rest[:-1]
        a = a.up
    return not rest


INHERITED = {"color", "font-size", "font-weight", "font-style", "font-family", "line-height", "white-space", "text-align", "visibility",
             "fill", "writing-mode", "direction", "letter-spacing", "word-spacing", "text-transform", "text-indent"}


class Sheet:
    def __init__(self, css):
        self.rules, self.cache = rules(css), {}

    def style(self, n):
        """The declarations that win for n, those it inherits included; var() is replaced."""
        if n is None or n.tag == "":
            return {}
        key = (n.tag, tuple(n.classes), n.attrs.get("style"), n.attrs.get("id"), self.key(n.up))
        if key not in self.cache:
            up = self.style(n.up)
            got = {}
            for parts, spec, order, decls in self.rules:
                if isinstance(parts, str):
                    got["?"] = parts
                elif matches(n, parts):
                    for k, v in decls:
                        w = (v.endswith("!important"), spec, order)
                        v = v.replace("!important", "").strip()
                        if k not in got or got[k][0] <= w:
                            got[k] = (w, v)
            got = {k: v if isinstance(v, str) else v[1] for k, v in got.items()}
            got.update(dict(declarations(n.attrs.get("style") or "")))
            for k, v in up.items():
                if (k in INHERITED or k.startswith("--")) and k != "font-size":
                    got.setdefault(k, v)
            got = {k: self.vars(v, got) for k, v in got.items()}
            base = up.get("font-size", 16.0)
            got["font-size"] = size(got["font-size"], base) if "font-size" in got else base
            self.cache[key] = got
        return self.cache[key]

    def key(self, n):
        return None if n is None else (n.tag, tuple(n.classes), n.attrs.get("style"), self.key(n.up))

    def vars(self, v, own):
        for _ in range(20):
            m = re.search(r"var\(\s*(--[\w-]+)\s*(?:,([^()]*(?:\([^()]*\)[^()]*)*))?\)", v)
            if not m:
                return v
            v = v[:m.start()] + (own.get(m.group(1)) or (m.group(2) or "").strip()) + v[m.end():]
        return v


def size(v, base):
    if isinstance(v, float):
        return v
    m = re.fullmatch(r"([\d.]+)(px|em|rem|%)", v)
    return {"px": 1, "em": base, "rem": 16, "%": base / 100}[m.group(2)] * float(m.group(1)) if m else -1.0


NAMES = {"black": 0, "white": 0xFFFFFF, "red": 0xFF0000, "transparent": -1, "none": -1}


def colour(v):
    """Red, green and blue as one number, -1 for nothing at all, -3 for what is no colour."""
    if v is None:
        return -1
    v = v.strip().lower()
    if v in NAMES:
        return NAMES[v]
    m = re.fullmatch(r"#([0-9a-f]{3,8})", v)
    if m:
        h = m.group(1)
        if len(h) in (3, 4):
            h = "".join(c + c for c in h)
        if len(h) in (6, 8):
            alpha = h[6:] or "ff"
            return int(h[:6], 16) if alpha == "ff" else -1 if alpha == "00" else -3
    m = re.fullmatch(r"rgba?\(\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)\s*(?:,\s*([\d.]+)\s*)?\)", v)
    if m:
        rgb = int(m.group(1)) * 65536 + int(m.group(2)) * 256 + int(m.group(3))
        return rgb if float(m.group(4) or 1) == 1 else -1 if float(m.group(4)) == 0 else -3
    return -3


def length(v):
    m = re.fullmatch(r"(-?\d+(?:\.\d+)?)(px)?", (v or "").strip())
    if not m:
        return None
    n = float(m.group(1))
    return int(n) if n == int(n) else None


def transform(v, origin):
    """Where the corners of a box go: [scale x, scale y, shift x, shift y], the shifts in hundredths of
    the box's own width and height; None when it is anything else."""
    sx, sy, tx, ty = 1.0, 1.0, 0.0, 0.0
    for name, args in re.findall(r"(\w+)\(([^()]*)\)", v or "none"):
        a = [x.strip() for x in args.split(",")]
        part = lambda x: float(x[:-1]) / 100 if x.endswith("%") else 0.0 if float(x) == 0 else None
        try:
            if name in ("scale", "scaleX", "scaleY"):
                k = [float(x) for x in a]
                k = [k[0], k[-1]] if name == "scale" else [k[0], 1] if name == "scaleX" else [1, k[0]]
                sx, sy = sx * k[0], sy * k[1]
            elif name in ("translate", "translateX", "translateY"):
                k = [part(x) for x in a]
                k = [k[0], (k + [0.0])[1]] if name == "translate" else [k[0], 0.0] if name == "translateX" else [0.0, k[0]]
                tx, ty = tx + sx * k[0], ty + sy * k[1]
            else:
                return None
        except (ValueError, TypeError):
            return None
    place = {"left": 0.0, "top": 0.0, "center": .5, "right": 1.0, "bottom": 1.0}
    at = (origin or "50% 50%").split()
    try:
        if len(at) == 1:
            at = [at[0], "center"] if at[0] not in ("top", "bottom") else ["center", at[0]]
        if at[0] in ("top", "bottom") or at[1] in ("left", "right"):
            at = at[::-1]
        ox, oy = [place[x] if x in place else float(x[:-1]) / 100 if x.endswith("%") else 0.0 if float(x) == 0 else None for x in at[:2]]
        tx, ty = tx + ox - sx * ox, ty + oy - sy * oy
    except (ValueError, TypeError):
        return None
    out = [sx, sy, tx * 100, ty * 100]
    return [round(x) for x in out] if all(abs(x - round(x)) < 1e-6 for x in out) else None


# ------------------------------------------------------------------------ png
def png(data):
    """(w, h, [rgb, -1 for nothing, -3 for something between])"""
    assert data[:8] == b"\x89PNG\r\n\x1a\n"
    at, idat, head, ended = 8, b"", None, False
    while at < len(data):
        n, kind = struct.unpack(">I4s", data[at:at + 8])
        body = data[at + 8:at + 8 + n]
        assert len(body) == n and zlib.crc32(kind + body) == struct.unpack(">I", data[at + 8 + n:at + 12 + n])[0]
        head = struct.unpack(">IIBBBBB", body) if kind == b"IHDR" else head
        idat += body if kind == b"IDAT" else b""
        ended = ended or kind == b"IEND"
        at += 12 + n
    w, h, depth, ctype, _, _, lace = head
    assert depth == 8 and lace == 0 and ended
    bpp = {0: 1, 2: 3, 4: 2, 6: 4}[ctype]
    raw, stride = zlib.decompress(idat), w * bpp
    assert len(raw) == h * (stride + 1)
    dots, old = [], bytearray(stride)
    for y in range(h):
        f, row = raw[y * (stride + 1)], bytearray(raw[y * (stride + 1) + 1:(y + 1) * (stride + 1)])
        for i in range(stride) if f else ():
            a = row[i - bpp] if i >= bpp else 0
            b, c = old[i], old[i - bpp] if i >= bpp else 0
            if f == 4:
                p = a + b - c
                pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
                q = a if pa <= pb and pa <= pc else b if pb <= pc else c
            else:
                q = {1: a, 2: b, 3: (a + b) // 2}[f]
            row[i] = (row[i] + q) & 255
        old = row
        for i in range(0, stride, bpp):
            v = row[i:i + bpp]
            rgb, alpha = (v[:3], v[3] if bpp == 4 else 255) if bpp >= 3 else (bytes([v[0]] * 3), v[1] if bpp == 2 else 255)
            dots.append((rgb[0] << 16 | rgb[1] << 8 | rgb[2]) if alpha == 255 else -1 if alpha == 0 else -3)
    return w, h, dots


# ------------------------------------------------------------------- the view
def odd(what):
    return {"t": "odd", "what": what}


def text_item(n, sheet):
    s = sheet.style(n)
    if any(isinstance(k, Node) for k in n.kids):
        return odd("markup in text: <%s>" % [k.tag for k in n.kids if isinstance(k, Node)][0])
    fl = transform(s.get("transform"), s.get("transform-origin"))
    line = s.get("text-decoration", "").split()
    box = [length(s.get("left")), length(s.get("top"))]
    if fl is None or None in box or s.get("position") != "absolute":
        return odd("no place for %r" % s)
    return {"t": "text", "left": box[0], "top": box[1], "text": [ord(c) for c in n.text()],
            "fg": colour(s.get("color")), "bg": colour(s.get("background-color")),
            "b": s.get("font-weight") in ("bold", "700"), "i": s.get("font-style") == "italic",
            "u": "underline" in line, "s": "line-through" in line, "size": round(s["font-size"] * 100),
            "box": fl, "pre": s.get("white-space") == "pre",
            "order": s.get("unicode-bidi") in ("bidi-override", "isolate-override") and s.get("direction", "ltr") == "ltr", "mono": "monospace" in s.get("font-family", "")}


def picture_item(n, sheet):
    s = sheet.style(n)
    m = re.fullmatch(r"data:image/png;base64,\s*([A-Za-z0-9+/]+={0,2})\s*", n.attrs.get("src") or "")
    left, width = length(s.get("left")), length(n.attrs.get("width"))
    if not m or left is None or width is None or s.get("position") != "absolute" or "transform" in s or n.kids:
        return odd("picture %r" % {k: v[:60] for k, v in n.attrs.items()})
    top = length(s.get("top", "0"))
    b = m.group(1).rstrip("=")
    try:
        w, h, dots = png(base64.b64decode(b + "=" * (-len(b) % 4)))
    except (AssertionError, zlib.error, struct.error, KeyError, TypeError, ValueError) as e:
        return odd("picture that is no picture: %r" % e)
    if w != width or "height" in n.attrs and length(n.attrs["height"]) != h:
        return odd("picture of %d x %d shown %s wide" % (w, h, n.attrs))
    xs = [x for x in range(w) if x == 0 or any(dots[y * w + x] != dots[y * w + x - 1] for y in range(h))]
    ys = [y for y in range(h) if y == 0 or dots[y * w:y * w + w] != dots[y * w - w:y * w]]
    return {"t": "picture", "left": left, "top": top, "w": w, "h": h, "xs": xs, "ys": ys,
            "c": [dots[y * w + x] for y in ys for x in xs]}


def code_item(n, sheet):
    s = sheet.style(n)
    left, w, h = length(s.get("left")), length(n.attrs.get("width")), length(n.attrs.get("height"))
    if None in (left, w, h) or s.get("position") != "absolute" or "transform" in s:
        return odd("drawing %r" % n.attrs)
    rects = []
    for k in n.kids:
        if not isinstance(k, Node):
            if k.strip():
                return odd("text in a drawing")
            continue
        r = [length(k.attrs.get(a)) for a in ("x", "y", "width", "height")]
        if k.tag != "rect" or None in r or k.kids:
            return odd("<%s> in a drawing" % k.tag)
        ks = sheet.style(k)
        rects.append(r + [colour(ks.get("fill") or k.attrs.get("fill") or "black")])
    top = length(s.get("top", "0"))
    return {"t": "code", "left": left, "top": top, "w": w, "h": h, "r": rects}


def row(n, sheet):
    s = sheet.style(n)
    h, m = length(s.get("height")), length(s.get("margin-top", s.get("margin", "0")))
    items = []
    if n.tag != "p" or h is None or m is None or s.get("position") != "relative":
        items.append(odd("row %r %r" % (n.tag, n.attrs)))
    for k in n.kids:
        if isinstance(k, str):
            if k.strip(" \n\t"):
                items.append(odd("text outside: %r" % k[:40]))
        elif k.tag == "span":
            items.append(text_item(k, sheet))
        elif k.tag == "img":
            items.append(picture_item(k, sheet))
        elif k.tag == "svg":
            items.append(code_item(k, sheet))
        else:
            items.append(odd("<%s>" % k.tag))
    # does a row without height keep the distances above and below it apart?
    apart = s.get("display") in ("flow-root", "flex", "grid", "table", "inline-block") or s.get("overflow", "visible") != "visible"
    return {"h": h or 0, "m": m or 0, "apart": apart, "items": items}


SHEETS = {}


def view(doc):
    """The receipt in a document, and the document without it."""
    root = tree(doc)
    css = "".join(n.text() for n in root.find("style"))
    sheet = SHEETS.setdefault(css, Sheet(css))
    at = [n for n in root.find("section") if n.up.tag in ("main", "body", "div")]
    art = [a for n in at for a in n.find("article")]
    if len(at) != 1 or len(art) != 1:
        return {"shell": repr([n.tag for n in at]), "w": 0, "left": 0, "pb": 0, "back": 0, "rows": [{"h": 0, "m": 0, "apart": True, "items": [odd("no receipt")]}]}
    s = sheet.style(at[0])
    out = {"w": length(s.get("width")), "left": length(s.get("padding-left", "0")), "pb": length(s.get("padding-bottom", "0")),
           "back": colour(s.get("background-color", s.get("background"))),
           "rows": [row(k, sheet) for k in art[0].kids if isinstance(k, Node)]}
    loose = "".join(k for k in art[0].kids if isinstance(k, str)).strip(" \n\t")
    if loose:
        out["rows"].append({"h": 0, "m": 0, "apart": True, "items": [odd("text outside: %r" % loose[:40])]})
    if s.get("box-sizing") != "border-box" or None in (out["w"], out["left"], out["pb"]):
        out["rows"].append({"h": 0, "m": 0, "apart": True, "items": [odd("section %r" % at[0].attrs)]})
    at[0].attrs["style"], art[0].kids = "", []
    out["shell"] = dump(root)
    return out


def dump(n):
    if isinstance(n, str):
        return n
    return "<%s %r>%s</>" % (n.tag, sorted(n.attrs.items()), "".join(dump(k) for k in n.kids))
