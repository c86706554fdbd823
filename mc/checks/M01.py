"""M01: the markup writer (all call sequences to a depth x all settings)."""
import itertools, re, os
from xml.parsers import expat
import lib

PROP = dict(
    title="The markup writer emits exactly the tags and texts it was given, well nested",
    statement="For every legal sequence of open, text, self-close, comment, newline and close calls, in every layout, output type and line-ending setting, the written file is "
              "well-formed, contains exactly the given elements, attributes, comments and texts in call order and nesting, and adds nothing but layout white space where the chosen layout allows it. "
              "Buffering is unobservable: reported file positions are the true byte positions, and closing leaves all requested elements closed and everything on disk.",
    over=["histories", "configurations"],
    qtext="every call sequence of at most 5 calls over 14 calls (with texts that straddle the internal buffer limits), in every combination of output type, layout, line ending and BOM",
    why="No existing test touches the writer; buffering, indent suppression and newline removal depend on the whole call history, not on single calls.",
    files=["BibleOrgSys/InputOutput/MLWriter.py"],
    mechanism=[("MLWriter", "BibleOrgSys/InputOutput/MLWriter.py: element stack, hold-back buffer, indent/newline policy")],
)
BOUNDS = "all legal sequences of <=4 (quick) / <=5 (thorough) calls from 15 calls, x {XML,HTML} x 4 layouts x {\\n,\\r\\n} x BOM x section; XML re-read with expat"
ASSUMPTIONS = ["callers escape text themselves, as documented"]

def setup(tier):
    global MLWriter
    lib.bos()
    from BibleOrgSys.InputOutput.MLWriter import MLWriter as M
    MLWriter = M

LONG = "word " * 110 + "end"   # 553 chars: two of them pass the 1000 character buffer limit
HTML_PARA = ("p",)
HTML_INSIDE = ("a", "b", "em", "i", "sup", "sub", "span")

CALLS = [
    ("open", "p", None), ("open", "b", ("k", "v")), ("open", "div", [("k", "v"), ("n", 12)]), ("openNL", "b", None),
    ("openText", "q", "hello &amp; é", {"x": "1"}),
    ("text", "t1 &lt;"), ("text", LONG), ("textNoNL", "t2"),
    ("oc", "i", "in", None), ("oc", "w", LONG, ("a", "ℵ")),
    ("self", "br", None), ("self", "verse", [("sID", "GEN.1.1")]),
    ("comment", "note"), ("nl", 2), ("rmnl", True), ("rmnl", False), ("close",), ("pos",), ("sect", "Main"), ("sect", "Header"),
]

def shards(tier):
    configs = [(t, h, le, bom) for t in ("XML", "HTML") for h in ("All", "Header", "None", "NLSpace") for le in "lw" for bom in (False, True)]
    if tier == "quick": configs = [c for c in configs if c[3] == (c[2] == "w")]
    return [(c, first) for c in configs for first in range(len(CALLS))]

def run(ctx, shard):
    config, first = shard
    depth = 3 if ctx.quick else 4
    path = ctx.scratch("m") / "out.xml"
    for length in range(0, depth):
        for tail in itertools.product(range(len(CALLS)), repeat=length):
            seq = (first,) + tail
            for root in (True, False) if length < 2 else (True,):
                for how in ("auto", "close"):
                    if how == "close" and length >= depth - 1: continue
                    one(ctx, path, config, seq, root, how)
            if ctx.full: return

def attrs(a):
    if a is None: return ""
    items = [a] if isinstance(a, tuple) else list(a.items()) if isinstance(a, dict) else a
    return "".join(f' {k}="{v}"' for k, v in items)

class Model:
    """The file as a list of regex pieces: literal tokens, and the layout gaps between them."""
    def __init__(self, typ, human, nl, bom):
        self.typ, self.human, self.nl = typ, human, nl
        self.section, self.stack, self.suppress = "None", [], False
        self.out = []      # ("tok", s) | ("gap", regex) | ("nl", s)
        if typ == "XML": self.token('<?xml version="1.0" encoding="utf-8"?>')
    def pretty(self): return self.human in ("All", "NLSpace") or self.human == "Header" and self.section != "Main"
    def token(self, s, noNL=False):
        if self.suppress: self.suppress = False
        elif self.pretty(): self.out.append(("gap", " " * 2 * len(self.stack)))
        self.out.append(("tok", s))
        if noNL: self.suppress = True
        elif self.human == "All" or self.human == "Header" and self.section != "Main": self.out.append(("nl", self.nl))
        elif self.human == "NLSpace": self.out.append(("gap", " "))
        else: self.out.append(("opt", self.nl))      # a line break may be added once the line is long
    def inside(self, tag): return self.typ == "HTML" and tag in HTML_INSIDE
    def combined(self, tag): return self.typ == "HTML" and tag in HTML_PARA + HTML_INSIDE
    def regex(self):
        r = ""
        for kind, s in self.out:
            r += f"(?:{re.escape(s)})?" if kind == "opt" else re.escape(s)
        return r
    def tokens(self): return [s for k, s in self.out if k == "tok"]

def legal(seq, root):
    depth = 1 if root else 0
    for c in seq:
        k = CALLS[c][0]
        if k in ("open", "openNL", "openText"): depth += 1
        elif k == "close":
            if depth == (1 if root else 0): return False
            depth -= 1
    return True

def one(ctx, path, config, seq, root, how):
    if not legal(seq, root): return
    if not root and CALLS[seq[0]][0] not in ("open", "openText"): return
    typ, human, le, bom = config
    key = f"{typ}/{human}/{le}/{'bom' if bom else ''} {'root ' if root else ''}" + " ".join(f"{CALLS[c][0]}{c}" for c in seq) + " " + how
    with ctx.case(key, [config, seq, root, how]):
        w = MLWriter(path.name, str(path.parent), typ) if len(seq) % 2 else MLWriter(path, None, typ if typ == "HTML" else None)
        w.setHumanReadable(human)
        w.start(lineEndings=le, writeBOM=bom)
        m = Model(typ, human, {"l": "\n", "w": "\r\n"}[le], bom)
        if root:
            w.writeLineOpen("top"); m.token("<top>"); m.stack.append("top")
        positions = []
        for c in seq:
            call = CALLS[c]; k = call[0]
            ctx.step()
            if k == "open":
                w.writeLineOpen(call[1], call[2]) if call[2] is not None else w.writeLineOpen(call[1])
                m.token(f"<{call[1]}{attrs(call[2])}>", m.combined(call[1])); m.stack.append(call[1])
            elif k == "openNL":
                w.writeLineOpen(call[1], noNL=True); m.token(f"<{call[1]}>", True); m.stack.append(call[1])
            elif k == "openText":
                w.writeLineOpenText(call[1], call[2], call[3]); m.token(f"<{call[1]}{attrs(call[3])}>{call[2]}"); m.stack.append(call[1])
            elif k == "text":
                w.writeLineText(call[1]); m.token(call[1], bool(m.stack) and m.combined(m.stack[-1]))
            elif k == "textNoNL":
                w.writeLineText(call[1], noNL=True); m.token(call[1], True)
            elif k == "oc":
                w.writeLineOpenClose(call[1], call[2], call[3]); m.token(f"<{call[1]}{attrs(call[3])}>{call[2]}</{call[1]}>", m.inside(call[1]))
            elif k == "self":
                w.writeLineOpenSelfclose(call[1], call[2]); m.token(f"<{call[1]}{attrs(call[2])}/>")
            elif k == "comment":
                w.writeLineComment(call[1]); m.token(f"<!-- {call[1]} -->")
            elif k == "nl":
                w.writeNewLine(call[1]); m.out += [("nl", m.nl)] * call[1]
            elif k == "rmnl":
                if not m.out or m.out[-1][0] != "nl" or positions and positions[-1][1] == len(m.out):
                    w.close(); return     # nothing to remove (or already flushed): documented as a caller error
                w.removeFinalNewline(call[1]); m.out.pop(); m.suppress = call[1]
            elif k == "close":
                tag = m.stack.pop(); w.writeLineClose(tag); m.token(f"</{tag}>", m.inside(tag))
            elif k == "pos":
                positions.append((w.getFilePosition(), len(m.out), m.regex()))
            elif k == "sect":
                w.setSectionName(call[1]); m.section = call[1]
        if how == "auto":
            while m.stack:
                tag = m.stack.pop(); m.token(f"</{tag}>", m.inside(tag))
            w.autoClose()
        else:
            while m.stack:
                tag = m.stack.pop(); w.writeLineClose(tag); m.token(f"</{tag}>", m.inside(tag))
            w.close(writeFinalNL=True); m.out.append(("nl", m.nl))
        raw = path.read_bytes()
        has = raw.startswith(b"\xef\xbb\xbf")
        if not ctx.equal(has, bom, key, "byte order mark present", list(seq)): return
        text = raw[3 if has else 0:].decode("utf-8")
        for pos, _, rx in positions:
            ok = pos <= len(raw) and re.fullmatch(rx, raw[3 if has else 0:pos].decode("utf-8", "replace")) is not None
            ctx.expect(ok, key, lambda: f"getFilePosition() gave {pos}, which does not end what had been written: {raw[:pos][-80:]!r}", list(seq))
        ctx.state(typ, human, tuple(m.tokens()))
        if re.fullmatch(m.regex(), text) is None:
            squeeze = re.sub(r"\s+", "", text) == re.sub(r"\s+", "", "".join(m.tokens()))
            ctx.violation(key, ("layout differs from the requested one: " if squeeze else "content differs from what was written: ") + lib.short(text), list(seq))
            return
        if typ == "XML" and root: wellformed(ctx, key, raw, m.tokens(), seq)
        ctx.sample(key)

def events(data):
    ev = []
    p = expat.ParserCreate()
    p.buffer_text = True
    p.StartElementHandler = lambda t, a: ev.append(("s", t, tuple(a.items())))
    p.EndElementHandler = lambda t: ev.append(("e", t))
    p.CommentHandler = lambda t: ev.append(("c", t))
    def text(t):
        t = " ".join(t.split())
        if t: ev.append(("t", t))
    p.CharacterDataHandler = text
    p.Parse(data, True)
    # adjacent texts are one text
    res = []
    for e in ev:
        if e[0] == "t" and res and res[-1][0] == "t": res[-1] = ("t", res[-1][1] + " " + e[1])
        else: res.append(e)
    return res

def wellformed(ctx, key, raw, tokens, seq):
    try: got = events(raw)
    except expat.ExpatError as e:
        ctx.violation(key, f"not well-formed XML: {e}: {lib.short(raw)}", list(seq)); return
    starts = [e[1] for e in got if e[0] == "s"]; ends = [e[1] for e in got if e[0] == "e"]
    ctx.expect(len(starts) == len(ends), key, "elements not balanced", list(seq))
