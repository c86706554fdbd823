"""Bounded-exhaustive USFM documents and the reference model of the lines they should become (shared by the L and I checks)."""
import itertools
import lib

BBB = "GEN"
HEAD = {"": [("id", "GEN test")], "h": [("id", "GEN test"), ("h", "Genesis"), ("toc1", "Book one"), ("mt1", "Title one")],
        "u": [("id", "GEN test"), ("usfm", "3.0"), ("ide", "UTF-8"), ("h", "Genesis"), ("mt", "Title one"), ("mt2", "Title two")]}
STANDARD = {"s": "s1", "q": "q1", "li": "li1", "ms": "ms1", "mt": "mt1", "io": "io1", "is": "is1", "pi": "pi1", "imt": "imt1", "ili": "ili1", "iq": "iq1"}
PARAS = set("p m mi pc pi1 q1 q2 q3 qr qm1 li1 li2 nb b pmo".split())          # text on these lines becomes a p~ entry
REGION_PARAS = PARAS - {"nb", "b"}                                            # paragraphs which are closed by an end marker

# token -> (marker, kind) ; kind: c, v, vb (bridge), ve (empty verse), va (part), e (no text), t (text)
TOKENS = {"c": ("c", "c"), "v": ("v", "v"), "vb": ("v", "vb"), "ve": ("v", "ve"), "va": ("v", "va"),
          **{m: (m, "e") for m in ("p", "q1", "q2", "li1", "li2", "m", "pi1", "b", "nb", "q", "li")},
          **{m + "t": (m, "t") for m in ("p", "q1", "q2", "li1", "m", "nb", "q", "pc")},
          **{m: (m, "t") for m in ("s1", "s2", "s", "ms1", "ms2", "mr", "r", "d", "sp", "qa", "cl", "cp", "is1", "ip", "iot", "io1", "io2", "ili", "imt1", "iq1", "rem", "sr")},
          "ib": ("ib", "e")}
BODY = ["c", "v", "vb", "ve", "p", "pt", "q1", "q1t", "q2", "li1", "s1", "s2", "ms1", "r", "d", "b", "m", "nb"]
CORE = ["c", "v", "vb", "ve", "p", "pt", "q1", "q1t", "li1", "s1", "ms1", "r", "b"]
SMALL = ["c", "v", "vb", "p", "q1t", "s1", "ms1", "b"]
INTRO = ["is1", "ip", "iot", "io1", "io2", "ili", "imt1", "ib", "rem"]

def lines_of(tokens, start_chapter=0):
    """The raw (marker, text) lines of a token sequence: chapters and verses number themselves, every text has its own word."""
    out, C, V, n, part = [], start_chapter, 0, 0, 0
    for t in tokens:
        marker, kind = TOKENS[t]
        if kind == "c": C += 1; V = 0; out.append(("c", str(C)))
        elif kind == "e": out.append((marker, ""))
        elif marker == "v":
            if kind == "vb": num = f"{V + 1}-{V + 2}"; V += 2
            elif kind == "va": V += 1; num = f"{V}a"
            else: V += 1; num = str(V)
            n += 1
            out.append(("v", num if kind == "ve" else f"{num} verse{n} word{n}x"))
        elif marker == "cp": n += 1; out.append((marker, f"{chr(64 + n)}"))
        else: n += 1; out.append((marker, f"text{n} more{n}x"))
    return out

def documents(tier, quick=4, thorough=5):
    """Shards of token sequences: ('body', depth, alphabet name, prefix...)"""
    depth = quick if tier == "quick" else thorough
    res = []
    for a in BODY:
        for b in BODY: res.append(("body", a, b))
    for a in CORE if depth > 3 else []:
        for b in CORE: res.append(("core", a, b, depth))
    if depth > 4:
        pass
    for a in SMALL:
        for b in SMALL: res.append(("small", a, b, depth + 1))
    for a in INTRO: res.append(("intro", a))
    res.append(("head",))
    return res

def expand(shard, tier):
    """All the documents (head name, tokens) of a shard."""
    kind = shard[0]
    if kind == "body":                                     # complete to depth 3 (quick) / 4 (thorough) after \\c 1
        n = 1 if tier == "quick" else 2
        for k in range(0, n + 1):
            for rest in itertools.product(BODY, repeat=k): yield "h", ("c",) + shard[1:3] + rest
    elif kind == "core":
        for rest in itertools.product(CORE, repeat=shard[3] - 2): yield "h", ("c",) + shard[1:3] + rest
    elif kind == "small":
        for rest in itertools.product(SMALL, repeat=shard[3] - 2): yield "h", ("c",) + shard[1:3] + rest
    elif kind == "intro":
        for n in range(0, 3 if tier == "quick" else 4):
            for rest in itertools.product(INTRO, repeat=n):
                for head in ("", "h"):
                    for body in (("c", "p", "v"), ("c", "s1", "p", "v", "v", "c", "v"), ("ms1", "c", "s1", "p", "v")):
                        yield head, (shard[1],) + rest + body
    else:
        for head in HEAD:
            for pre in ((), ("cl",), ("ip",), ("ip", "cl")):
                for mid in itertools.product(("p", "s1", "d", "cl", "cp", "v", "va", "sp", "qa", "s2", "mr", "pc" + "t", "li", "q", "rem", "pi1", "q2t", "nbt"), repeat=2 if tier == "quick" else 3):
                    yield head, pre + ("c",) + mid + ("p", "v", "c", "d", "q1", "v", "q2t", "va")

def raw(head, tokens): return HEAD[head] + lines_of(tokens)

def build(lines, code=BBB, kind="USFM3"):
    from BibleOrgSys.Internals.InternalBibleBook import InternalBibleBook
    b = InternalBibleBook("Test", code)
    b.objectNameString, b.objectTypeString, b.sourceFilepath = "Test book object", kind, "nowhere"
    for m, t in lines: b.addLine(m, t)
    b.processLines()
    return b

def expected(lines):
    """The reference model: the content entries (marker, text) in order, without the markers added to show the nesting."""
    out, inC, waiting = [], False, None
    for marker, text in lines:
        m = STANDARD.get(marker, marker)
        if m == "c":
            num, _, rest = text.partition(" ")
            out.append(("c", num)); inC, waiting = True, num
            if rest: out.append(("c~", rest))
        elif m == "v":
            if not inC:
                last = out[-1] if out else None
                if last and last[0] in ("p", "q1", "m", "nb"): out[-1:] = [("c", "1"), last]
                else: out.append(("c", "1"))
                inC = True
            if waiting is not None: out.append(("c#", waiting)); waiting = None
            num, _, rest = text.partition(" ")
            out.append(("v", num))
            if rest: out.append(("v~", rest))
        else:
            if m == "cp": waiting = text
            if m == "cl" and not inC: m = "cl¤"
            if m in ("d", "iex") and text and waiting is not None: out.append(("c#", waiting)); waiting = None
            if m in PARAS and text: out += [(m, ""), ("p~", text)]
            else: out.append((m, text))
    return out

def structural(e):
    """Is this entry one which was added to show the nesting or the logical verse start?"""
    m = e.getMarker()
    return m[0] == "¬" or m == "v=" or e.getOriginalMarker() is None

def content(entries): return [(e.getMarker(), e.getCleanText()) for e in entries if not structural(e)]

def show(lines): return " / ".join(f"\\{m} {t}".strip() for m, t in lines)
