"""U09: Bible modules for theWord, MySword, MyBible and e-Sword hold every verse's text in its place (all bounded documents and gaps)."""
import itertools, os, re, sqlite3
import lib
from checks import P01
from checks import U02

PROP = dict(
    title="Exported Bible modules hold each verse's text in its place",
    statement="A Bible exported as a module for theWord, MySword, MyBible or e-Sword holds, for each verse of the KJV versification that the Bible has, exactly the words of that verse, in order and once, at the place of that verse: verses before gaps and at the ends of chapters and books, "
              "verses continued over paragraphs, and all parts of divided verses; and each verse of a bridge has the words of the bridge. Headings go with the verse they precede, footnotes are kept apart from the text (and left out of e-Sword), cross-references are no part of the text. "
              "Verses which the Bible does not have hold no words, no row is given twice, theWord modules have exactly one line for every verse, and exporting changes nothing in the Bible: exporting again gives the same.",
    over=["inputs", "configurations", "histories"],
    qtext="all bounded documents of verses, bridges, divided verses, gaps, paragraphs, headings, notes and fields; all patterns of missing verses at the edges of the chapters of every book; all bounded collections of books; in all four formats",
    why="The exporter writes each line one verse late, so what happens depends on what follows; no test reads an exported module.",
    files=["BibleOrgSys/Formats/theWordBible.py", "BibleOrgSys/Formats/MySwordBible.py", "BibleOrgSys/Formats/MyBibleBible.py", "BibleOrgSys/Formats/ESwordBible.py", "BibleOrgSys/BibleWriter.py", "BibleOrgSys/Internals/InternalBibleIndexes.py"],
    mechanism=[("createTheWordModule/theWordComposeVerseLine/theWordAdjustLine", "BibleOrgSys/Formats/theWordBible.py"), ("createMySwordModule", "BibleOrgSys/Formats/MySwordBible.py"), ("createMyBibleModule", "BibleOrgSys/Formats/MyBibleBible.py"), ("createESwordBibleModule", "BibleOrgSys/Formats/ESwordBible.py")],
)
BOUNDS = ("all sequences of <=3 of 20 kinds of lines and of <=4 of 9 kinds (thorough: <=4 of 20, <=5 of 9); all sequences of <=3 (4) of 10 in-line items in a verse; for all 66 books all 32 patterns of present verses around the edges of chapters and books, and whole Bibles; collections of books of each Testament and others")
ASSUMPTIONS = ["verse parts are lettered a, b in order; words with attributes, figures and tables are left out", "what is between the start and end of a heading or note of the format is no text; an extra space beside a paragraph or field mark is none"]

FORMATS = ("theWord", "MySword", "MyBible", "ESword")
ITEMS = "vBLgabpqmQslcnxfedrz"
FEW = "vBgabpQsc"
PIECES = [("word", "%s"), ("add", "\\add %s\\add*"), ("wj", "\\wj %s\\wj*"), ("nd", "\\nd %s\\nd*"), ("bdit", "\\bdit %s\\bdit*"), ("it", "\\it %s\\it*"),
          ("bd", "\\bd %s\\bd*"), ("note", "\\f + \\fr 1:1 \\ft %s\\f*"), ("notefq", "\\f + \\fr 1:1 \\fq %s \\ft %s\\f*"), ("xref", "\\x - \\xo 1:1 \\xt %s\\x*")]

def setup(tier):
    U02.setup(tier)
    global G, KJV, CANON
    G = lib.bos()
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    s = BibleOrganisationalSystem("GENERIC-KJV-66-ENG")
    KJV = {}
    BBB = "GEN"
    while BBB:
        KJV[BBB] = [int(n) for n in s.getNumVersesList(BBB)]
        BBB = s.getNextBookCode(BBB)
    CANON = list(KJV)
    assert len(CANON) == 66 and sum(map(sum, KJV.values())) == 31102, (len(CANON), sum(map(sum, KJV.values())))

def shards(tier):
    deep, few, inl = (3, 4, 3) if tier == "quick" else (4, 5, 4)
    res = [("lines", a, deep) for a in ITEMS] + [("few", a, few) for a in FEW] + [("inline", n) for n in range(1, inl + 1)]
    return res + [("edges", n) for n in range(32)] + [("whole",), ("books",), ("odd",), ("again",), ("titles",)]

class Doc:
    """A book made of lines, with what each verse should hold"""
    def __init__(self, BBB, counts):
        self.BBB, self.counts, self.raw, self.n = BBB, counts, [("id", BBB)], 0
        self.optional, self.pale = set(), set()
        self.text, self.notes, self.heads, self.pending, self.current = {}, {}, {}, [], []
        self.c, self.v, self.part, self.para = 0, 0, "", False
        self.chapter()
    def word(self, kind="w"):
        self.n += 1
        return f"{kind}{self.BBB.lower()}{self.n}z"
    def settle(self):
        """Headings with no verse after them stay with the verse before"""
        for h in self.pending: self.heads.setdefault(h, []).extend(self.current)
        self.pending = []
    def chapter(self):
        self.settle()
        self.c += 1; self.v, self.part, self.current = 0, "", []
        self.raw += [("c", str(self.c))]
        self.para = False
    def begin(self, number, verses, text, tokens, notes=()):
        if not self.para: self.raw.append(("p", "")); self.para = True
        self.raw.append(("v", f"{number} {text}".rstrip() if text else number))
        if not text: # A heading before a verse without text may be with either verse or left out
            for h in self.pending: self.heads.setdefault(h, []).extend(self.current); self.optional.add(h)
        self.current = [(self.c, v) for v in verses]
        for cv in self.current:
            self.text.setdefault(cv, []).extend(tokens); self.notes.setdefault(cv, []).extend(notes)
            for h in self.pending: self.heads.setdefault(h, []).append(cv)
        self.pending = []
    def more(self, marker):
        if not self.current: return False
        self.settle()
        a, b = self.word(), self.word()
        self.raw.append((marker, f"{a} {b}")); self.para = True
        for cv in self.current: self.text[cv] += [a, b]
        return True
    def item(self, k):
        """Returns False when the item can't come here"""
        if k in "vBLganxfe" and k != "b": 
            if self.part == "a": return False
            self.part = ""
        if k in "pqsdrz" and self.para: self.optional.update(self.pending) # Headings before an empty paragraph may be left out
        if k == "v": self.v += 1; a, b = self.word(), self.word(); self.begin(str(self.v), [self.v], f"{a} {b}", [a, b])
        elif k == "B": self.v += 2; a = self.word(); self.begin(f"{self.v-1}-{self.v}", [self.v - 1, self.v], a, [a])
        elif k == "L": self.v += 2; a = self.word(); self.begin(f"{self.v-1},{self.v}", [self.v - 1, self.v], a, [a])
        elif k == "g": self.v += 2; a = self.word(); self.begin(str(self.v), [self.v], a, [a])
        elif k == "a": self.v += 1; self.part = "a"; a = self.word(); self.begin(f"{self.v}a", [self.v], a, [a])
        elif k == "b":
            if self.part != "a": return False
            self.part = "b"; a = self.word(); self.begin(f"{self.v}b", [self.v], a, [a])
        elif k == "p": self.raw.append(("p", "")); self.para = True
        elif k == "q": self.raw.append(("q1", "")); self.para = True
        elif k == "m": return self.more("m")
        elif k == "Q": return self.more("q2")
        elif k == "s": h = self.word("h"); self.pending.append(h); self.raw.append(("s1", h)); self.para = False
        elif k in "dr" and (self.current or self.para): return False # Where these belong inside a chapter is not settled
        elif k == "d": h = self.word("h"); self.pending.append(h); self.raw.append(("d", h)); self.para = False
        elif k == "r": h = self.word("h"); self.pending.append(h); self.raw.append(("r", f"({h})")); self.para = False
        elif k == "z": self.raw.append(("b", "")); self.para = True
        elif k == "l": return self.more("li1")
        elif k == "c":
            if self.part == "a" or self.c >= len(self.counts): return False
            self.chapter()
        elif k == "n": self.v += 1; a, b, n = self.word(), self.word(), self.word("n"); self.begin(str(self.v), [self.v], f"{a}\\f + \\fr {self.c}:{self.v} \\ft {n}\\f* {b}", [a, b], [n])
        elif k == "x": self.v += 1; a, b, n = self.word(), self.word(), self.word("x"); self.begin(str(self.v), [self.v], f"{a}\\x - \\xo {self.c}:{self.v} \\xt {n}\\x* {b}", [a, b])
        elif k == "f": self.v += 1; a, b, d = self.word(), self.word(), self.word(); self.begin(str(self.v), [self.v], f"\\wj {a}\\wj* \\add {b}\\add* {d}", [a, b, d])
        elif k == "e": self.v += 1; self.begin(str(self.v), [self.v], "", [])
        return self.v <= self.counts[self.c - 1]

def export(ctx, B, fmt):
    """Returns the file which was made and the result"""
    folder = ctx.scratch()
    result = dict(theWord=B.totheWord, MySword=B.toMySword, MyBible=B.toMyBible, ESword=B.toESword)[fmt](folder)
    files = [f for f in os.listdir(folder) if f.endswith((".ont", ".ot", ".nt") if fmt == "theWord" else {"MySword": ".mybible", "MyBible": ".SQLite3", "ESword": ".bblx"}[fmt])]
    return result, [os.path.join(folder, f) for f in files]

def rows(fmt, path):
    """{(book, C, V): text}, number of lines or rows, and what is wrong with them"""
    res, wrong = {}, []
    if fmt == "theWord":
        raw = open(path, "rb").read()
        if not raw.startswith(b"\xef\xbb\xbf"): wrong.append("no byte order mark")
        lines = raw.decode("utf-8-sig").split("\n")
        books = {".ont": CANON, ".ot": CANON[:39], ".nt": CANON[39:]}[os.path.splitext(path)[1]]
        n = 0
        for BBB in books:
            for c, last in enumerate(KJV[BBB], 1):
                for v in range(1, last + 1):
                    res[BBB, c, v] = lines[n] if n < len(lines) else ""
                    n += 1
        for l in lines[n:]:
            if l and not re.match(r"^[a-z.\d]+=", l): wrong.append(("line after the verses", l))
        return res, wrong
    db = sqlite3.connect(path)
    try:
        for book, c, v, text in db.execute("SELECT * FROM " + ("verses" if fmt == "MyBible" else "Bible")):
            BBB = BYNUMBER.get(book, book) if fmt == "MyBible" else CANON[book - 1] if 1 <= book <= 66 else book
            if (BBB, c, v) in res: wrong.append(("twice", BBB, c, v))
            res[BBB, c, v] = text
    finally: db.close()
    return res, wrong

# As the makers of MyBible number the books
MYBIBLE = "GEN 10 EXO 20 LEV 30 NUM 40 DEU 50 JOS 60 JDG 70 RUT 80 SA1 90 SA2 100 KI1 110 KI2 120 CH1 130 CH2 140 EZR 150 NEH 160 EST 190 JOB 220 PSA 230 PRO 240 ECC 250 SNG 260 ISA 290 JER 300 LAM 310 EZE 330 DAN 340 HOS 350 JOL 360 AMO 370 OBA 380 JNA 390 MIC 400 NAH 410 HAB 420 ZEP 430 HAG 440 ZEC 450 MAL 460 MAT 470 MRK 480 LUK 490 JHN 500 ACT 510 ROM 520 CO1 530 CO2 540 GAL 550 EPH 560 PHP 570 COL 580 TH1 590 TH2 600 TI1 610 TI2 620 TIT 630 PHM 640 HEB 650 JAM 660 PE1 670 PE2 680 JN1 690 JN2 700 JN3 710 JDE 720 REV 730".split()
BYNUMBER = {int(n): b for b, n in zip(MYBIBLE[::2], MYBIBLE[1::2])}

def parts(fmt, text):
    """The words of the text, of headings and of notes"""
    heads, notes = [], []
    def take(pattern, into, text, by=" "):
        def found(m): into.append(m.group(1)); return by
        return re.sub(pattern, found, text)
    if fmt in ("theWord", "MySword"):
        text = take(r"<TS\d>(.*?)<Ts>", heads, text)
        text = take(r"<RF>(.*?)<Rf>", notes, text, "")
        text = re.sub(r"<RX [^<>]*>", "", text)
    elif fmt == "MyBible":
        text = take(r"<t>(.*?)</t>", heads, text)
        text = take(r"<n>(.*?)</n>", notes, text, "")
    else:
        text = take(r"\\b\\i\\f0 (.*?)(?:\\cf0\\b0\\i0|\\b\\i\\f0(?: |$|(?=\\line)))", heads, text)
        text = take(r"<TS\d>(.*?)<Ts>", heads, text)
        text = text.replace("\\line ", " ").replace("\\line", " ")
        text = re.sub(r"\\(cf15\\i|cf0\\i0) ?", "", text)
    text = re.sub(r"<sup>\([^<>]*\)</sup>", " ", text)
    text = re.sub(r"<(CM|CL|CI|PI\d?|pb/|br/)>", " ", text)
    clean = lambda s: re.sub(r"</?(FI|Fi|FO|Fo|FR|Fr|J|b|i|font[^<>]*)>", "", s).replace("•", " ").split()
    bare = lambda h: h.strip("()")
    text = clean(text)
    if text == ["(-)"]: text = []
    return text, [bare(w) for h in heads for w in clean(h)], [w for n in notes for w in clean(n)]

def examine(ctx, key, docs, formats=FORMATS, extra=None):
    """Exports a Bible of the docs to all the formats and compares every verse"""
    if ctx.full: return
    for d in docs: d.settle()
    ctx.sample([key, docs[0].raw])
    with ctx.case(key):
        B = P01.make({**{d.BBB: d.raw for d in docs}, **(extra or {})})
        for fmt in formats:
            result, files = export(ctx, B, fmt)
            if ctx.equal((bool(result), len(files)), (True, 1), key + (fmt,), "export succeeds and makes one module"): compare(ctx, key, fmt, files[0], docs)

def compare(ctx, key, fmt, path, docs):
    found, wrong = rows(fmt, path)
    ctx.equal(wrong[:3], [], key + (fmt, "form"), "what is wrong with the module")
    seen = set()
    byBook = {d.BBB: d for d in docs}
    for (BBB, c, v), text in found.items():
        d = byBook.get(BBB)
        if not text or text == "(-)": continue
        ctx.state(fmt, text)
        words, heads, notes = parts(fmt, text)
        if not words and not heads and not notes: continue
        where = key + (fmt, BBB, c, v)
        of = repr(d.raw) if d and len(d.raw) < 40 else d and d.BBB
        want = d.text.get((c, v), []) if d else []
        ctx.equal(words, want, where, f"words of {text!r} of {of}")
        wantNotes = d.notes.get((c, v), []) if d and fmt != "ESword" else []
        ctx.equal(notes, wantNotes, where + ("notes",), f"notes of {text!r} of {of}")
        bad = [h for h in heads if not (d and (c, v) in d.heads.get(h, []))]
        ctx.equal(bad, [], where + ("heads",), f"headings that do not belong in {text!r} of {of}")
        for h in heads: seen.add((BBB, h))
        seen.add((BBB, c, v))
    for d in docs:
        for cv, want in d.text.items():
            ctx.step()
            if want and (d.BBB,) + cv not in seen: ctx.violation(key + (fmt, d.BBB) + cv, f"{fmt} {d.BBB} {cv[0]}:{cv[1]} is missing, of {d.raw if len(d.raw) < 40 else ''}")
        for h, cvs in d.heads.items():
            if cvs and h not in d.optional and not (fmt == 'MyBible' and h in d.pale) and (d.BBB, h) not in seen: ctx.violation(key + (fmt, d.BBB, h), f"{fmt} {d.BBB}: heading {h} for {cvs} is missing, of {d.raw if len(d.raw) < 40 else ''}")

def places():
    """Books with room for the documents: two chapters at least of eight verses at least"""
    return [b for b in CANON if len(KJV[b]) > 5 and min(KJV[b][:5]) >= 10]

def run(ctx, shard):
    kind = shard[0]
    if kind in ("lines", "few"):
        alphabet = ITEMS if kind == "lines" else FEW
        seqs = ["".join((shard[1],) + rest) for n in range(shard[2]) for rest in itertools.product(alphabet, repeat=n)]
        if kind == "few": seqs = [s for s in seqs if len(s) == shard[2]]
        books, docs, names = places(), [], []
        for s in seqs:
            d = Doc(books[len(docs)], KJV[books[len(docs)]])
            if not all(d.item(k) for k in s): continue
            docs.append(d); names.append(s)
            if len(docs) == len(books): examine(ctx, (kind, names[0], names[-1]), docs); docs, names = [], []
        if docs: examine(ctx, (kind, names[0], names[-1]), docs)
    elif kind == "inline":
        books, docs = places(), []
        def flush():
            if docs: examine(ctx, ("inline", shard[1], docs[0].name), docs)
        for combo in itertools.product(range(len(PIECES)), repeat=shard[1]):
            for gap in (" ", "") if shard[1] > 1 else (" ",):
                d = Doc(books[len(docs)], KJV[books[len(docs)]])
                bits, tokens, notes, glue = [], [], [], False
                for i in combo:
                    kind2, form = PIECES[i]
                    ws = [d.word("w") for _ in range(form.count("%s"))]
                    if kind2.startswith("note"): notes += ws
                    elif kind2 != "xref": tokens += ws
                    bits.append((kind2, form % tuple(ws), ws))
                if gap == "" and not any(b[0].startswith("note") or b[0] == "xref" for b in bits): continue # Words would be joined
                text, prev = "", None
                for b in bits:
                    textual = b[0] not in ("note", "notefq", "xref")
                    if text and (gap or textual): text += " " # Notes may follow without a space
                    text += b[1]
                a = d.word(); text += " " + a; tokens.append(a)
                d.v = 1; d.begin("1", [1], text, tokens, notes)
                d.item("v"); d.name = (combo, gap)
                docs.append(d)
                if len(docs) == len(books): flush(); docs = []
        flush()
    elif kind == "edges":
        docs = []
        for BBB in CANON:
            d = Doc(BBB, KJV[BBB])
            while True:
                last = KJV[BBB][d.c - 1]
                have = [v for bit, v in zip(range(5), (1, 2, last // 2, last - 1, last)) if shard[1] >> bit & 1]
                for v in sorted(set(have)):
                    if v < 1: continue
                    a = d.word(); d.v = v; d.begin(str(v), [v], a, [a])
                if d.c >= len(KJV[BBB]): break
                d.chapter()
            docs.append(d)
        examine(ctx, ("edges", shard[1]), docs)
    elif kind == "whole":
        for first, size in (("v", 1), ("B", 2), ("L", 2)):
            docs = []
            for BBB in CANON:
                d = Doc(BBB, KJV[BBB])
                while True:
                    while d.v + size <= KJV[BBB][d.c - 1]: d.item(first)
                    while d.v < KJV[BBB][d.c - 1]: d.item("v")
                    if d.c >= len(KJV[BBB]): break
                    d.chapter()
                docs.append(d)
            examine(ctx, ("whole", first), docs)
    elif kind == "books":
        others = ["FRT", "INT", "GLS", "OTH", "XXA", "XXB", "XXC", "BAK"]
        for name, codes in (("OT", CANON[:39]), ("NT", CANON[39:]), ("both", CANON), ("GEN", ["GEN"]), ("REV", ["REV"]), ("MAL", ["MAL"]), ("MAT", ["MAT"]), ("GEN MAT", ["GEN", "MAT"]), ("MAT GEN", ["MAT", "GEN"]), ("MAL MAT REV", ["MAL", "MAT", "REV"])):
            for n in range(len(others) + 1):
                docs = []
                for BBB in codes:
                    d = Doc(BBB, KJV[BBB]); d.item("s"); d.item("v"); d.item("B"); docs.append(d)
                examine(ctx, ("books", name, n), docs, extra={o: [("id", o), ("ip", "other")] for o in others[:n]})
    elif kind == "odd":
        # The verses that come after the last of the KJV
        for BBB, C, V in (("JN3", 1, 14), ("REV", 12, 17)):
            for a, b, e in itertools.product((False, True), repeat=3):
                if not a and b: continue # Nowhere to put it
                d = Doc(BBB, KJV[BBB])
                while d.c < C: d.chapter()
                for there, v in ((e, V - 1), (a, V), (b, V + 1)):
                    if there: w = d.word(); d.v = v; d.begin(str(v), [min(v, V)], w, [w])
                examine(ctx, ("odd", BBB, a, b, e), [d])
    elif kind == "titles":
        # Titles come before the first verse there is, except in MyBible which has no place for them; introductions are left out
        lines = ["mt1", "mt2", "mt3", "is1", "ip", "h", "toc1", "ms1", "mr", "io1"]
        books, docs = places(), []
        for n in range(4):
            for combo in itertools.product(lines, repeat=n):
                d = Doc(books[len(docs)], KJV[books[len(docs)]])
                titles = []
                for m in combo:
                    h = d.word("t"); d.raw.insert(-1, (m, h))
                    if m in ("mt1", "mt2", "mt3", "ms1", "mr"): titles.append(h)
                for k in ("v", "B", "gs", "sBc", "qv")[len(docs) % 5] + "v": d.item(k)
                first = min(d.text)
                for h in titles: d.heads[h] = [cv for cv in d.text if d.text[cv] == d.text[first]]; d.pale.add(h)
                docs.append(d)
                if len(docs) == len(books): examine(ctx, ("titles", n, combo), docs); docs = []
        if docs: examine(ctx, ("titles", n, combo), docs)
    elif kind == "again":
        # All orders of exporting the same Bible, some twice
        for order in itertools.product(FORMATS, repeat=3):
            with ctx.case(("again",) + order):
                docs = []
                for BBB, s in (("GEN", "vBsvabcsvQ"), ("PSA", "snxfgpv"), ("MAT", "vec" + "abvL")):
                    d = Doc(BBB, KJV[BBB])
                    for k in s: d.item(k)
                    docs.append(d)
                for d in docs: d.settle()
                B = P01.make({d.BBB: d.raw for d in docs})
                before = [U02.entry(e) for d in docs for e in B.books[d.BBB]._processedLines]
                for fmt in order:
                    result, files = export(ctx, B, fmt)
                    if ctx.equal((bool(result), len(files)), (True, 1), ("again",) + order + (fmt,), "export succeeds and makes one module"): compare(ctx, ("again",) + order, fmt, files[0], docs)
                ctx.equal([U02.entry(e) for d in docs for e in B.books[d.BBB]._processedLines], before, ("again",) + order + ("lines",), "lines of the Bible after exporting")
