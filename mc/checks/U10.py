"""U10: reading theWord and MySword modules: every bounded verse content at every kind of place, many cases to a module."""
import itertools, os, re, sqlite3
import lib
from checks import U09

PROP = dict(
    title="theWord and MySword modules are read completely, each thing at its place",
    statement="A Bible module of theWord (whole Bible, Old or New Testament) or MySword that is read gives every verse of the module under its own book, chapter and verse number, with exactly its words in order, "
              "its added, quoted, bold, italic, underlined and red-letter words marked as such, its footnotes and cross-references kept as notes at their places and out of the text, its headings before the words they precede (at the start of a book as titles), and a new paragraph or line exactly where the module has one. "
              "Nothing of one verse gets into another or is lost whatever the verse begins or ends with or what follows, verses and books the module does not have stay empty or absent, the information about the module is read, and reading book by book in any order gives the same as reading all at once.",
    over=["inputs", "configurations", "histories"],
    qtext="all bounded sequences of pieces of text and formatting codes in verses at the start, in the middle and at the end of chapters and books, in modules of each kind",
    why="The reader rewrites each line with a hundred text replacements whose results depend on what comes before and after; no test reads a module's text.",
    files=["BibleOrgSys/Formats/theWordBible.py", "BibleOrgSys/Formats/MySwordBible.py", "BibleOrgSys/Internals/InternalBible.py"],
    mechanism=[("handleRTFLine", "BibleOrgSys/Formats/theWordBible.py"), ("theWordBible.load", "BibleOrgSys/Formats/theWordBible.py"), ("MySwordBible.load/loadBook", "BibleOrgSys/Formats/MySwordBible.py")],
)
BOUNDS = ("each of 36 more codes alone and next to plain text; all sequences of <=2 of 30 pieces (words with each formatting code, notes, headings, paragraph and line ends) and of <=3 of 13 (thorough: <=3 of 30 for theWord) in the first verse of a book, in the first, a middle and the last verse of a chapter and in the last verse of a book, with a plain verse after; "
          "all pairs of <=1-piece verses next to each other over verse, chapter and book limits; theWord whole/OT/NT files with and without BOM, in UTF-8 and Latin-1, with LF and CRLF; MySword read at once and by book in every order of 3 books; all subsets of 4 verses missing")
ASSUMPTIONS = ["the KJV versification, which both formats use", "the repairs of single known modules (texts like '(<12>)' or '</<sup>>') and Strong's numbers' meanings are outside the claim, as are codes the reader does not know", "in-line formatting ends in the verse where it starts"]

# name -> (template with {} for the word, events: what is read)
W = "w"
PIECES = {
    "w": ("{}", [W]), "join": ("{}-{}", ["j"]), "add": ("<FI>{}<Fi>", ["add"]), "wj": ("<FR>{}<Fr>", ["wj"]), "qt": ("<FO>{}<Fo>", ["qt"]), "bd": ("<b>{}</b>", ["bd"]), "it": ("<i>{}</i>", ["it"]), "ord": ("<sup>{}</sup>", ["ord"]), "adds": ("{} <FI>{}<Fi>, {}", [W, "add,", W]),
    "note": ("{}<RF>{}<Rf>", [W, "f"]), "noteq": ("{}<RF q=a>{}<Rf>", [W, "f"]), "lone": ("<RF>{}<Rf>", ["f"]), "xref": ("{}<RX>{}<Rx>", [W, "x"]), "strong": ("{}<WH123>", [W]), "colour": ("<font color=red>{}</font>", [W]), "small": ("<font size=-1>{}</font>", ["sc"]),
    "head": ("<TS>{}<Ts>{}", ["h1", W]), "head1": ("<TS1>{}<Ts>{}", ["h1", W]), "head2": ("<TS2>{}<Ts2>{}", ["h2", W]), "head3": ("<TS3>{}<Ts>{}", ["h3", W]), "headadd": ("<TS>{}<Ts><FI>{}<Fi>", ["h1", "add"]), "headnote": ("<TS>{}<Ts>{}<RF>{}<Rf>", ["h1", W, "f"]),
    "CM": ("{}<CM>", [W, "Pp"]), "CI": ("{}<CI>", [W, "Pp"]), "CL": ("{}<CL>", [W, "Pm"]), "PI1": ("<PI1>{}", ["Pq1", W]), "PF1": ("<PF1>{}", ["Pq1", W]), "PI2": ("<PI2>{}", ["Pq2", W]), "CIPI": ("{}<CI><PI2>{}", [W, "Pq2", W]), "CMPI": ("{}<CM><PI>{}", [W, "Pq1", W]), "BR": ("{}<BR>{}", [W, "Pm", W]),
}
# Claimed alone and next to plain text
MORE = {
    "PI": ("<PI>{}", ["Pq1", W]), "PI3": ("<PI3>{}", ["Pq3", W]), "PF0": ("<PF0>{}", ["Pq1", W]), "PFPI": ("<PF1><PI1>{}", ["Pq1", W]), "u": ("<u>{}</u>", ["ul"]), "ul": ("<FU>{}<Fu>", ["ul"]), "em": ("<font size=+1>{}</font>", ["em"]),
    "nd": ("<HEB>{}<Heb>", ["nd"]), "qac": ("<HEB>{}<heb>", ["qac"]), "R": ("<R>{}<r>", [W]), "sub": ("<sub>{}</sub>", [W]), "lemma": ("<l=abc>{}", [W]), "wh": ("{}<WH7><wh>", [W]), "colours": ("<font color=red>{}</font> {} <font color=blue>{}</font>", [W, W, W]),
    "br": ("{}<br>{}", [W, "Pm", W]), "brs": ("{} <BR> {}", [W, "Pm", W]), "nbsp": ("{}\xa0{}", [W, W]),
}
for codes, marker in (("<CI><PF0>", "p"), ("<CI><PF1>", "p"), ("<CI><PF1><PI1>", "q1"), ("<CI><PF2><PI2>", "q2"), ("<CI><PF3><PI3>", "q3"), ("<CI><PI>", "q1"), ("<CI><PI0>", "p"), ("<CI><PI1>", "q1"), ("<CI><PI3>", "q3"), ("<CI><PI4>", "q4"), ("<CL><PI2>", "q2"),
                      ("<CM><PI5>", "q4"), ("<CM><PI6>", "q4"), ("<CM><PF1><PI1>", "q1"), ("<CM><PF2><PI2>", "q2"), ("<CM><PF3><PI3>", "q3"), ("<CM><PF0>", "m"), ("<PF0>", "p"), ("<PF1><PI1>", "q1")):
    MORE["mid" + codes] = ("{}" + codes + "{}", [W, "P" + marker, W])
BASE = list(PIECES)
PIECES.update(MORE)
ONE = {"PI1", "PF1", "PI2", "PI", "PI3", "PF0", "PFPI"} # These are claimed at the start of a verse only
LAST = {"CI"} # and these at the end
FEW = ["w", "add", "note", "lone", "head", "head2", "headadd", "CM", "CI", "CL", "PI1", "CIPI", "BR"]

def setup(tier):
    U09.setup(tier)
    global G, KJV, CANON, theWordBible, MySwordBible, BOM
    G, KJV, CANON = U09.G, U09.KJV, U09.CANON
    from BibleOrgSys.Formats.theWordBible import theWordBible
    from BibleOrgSys.Formats.MySwordBible import MySwordBible
    BOM = "\ufeff"

class Verse:
    """The text of one verse in the module, and what reading it must give"""
    def __init__(self, seq, words, book_start=False):
        text, self.want = [], []
        for i, name in enumerate(seq):
            t, events = PIECES[name]
            ws = [next(words) for _ in range(t.count("{}"))]
            text.append(t.format(*ws))
            n = 0
            for e in events:
                if e[0] == "P": self.want.append(("P", "p" if name == "CL" and i == len(seq) - 1 else e[1:]))
                elif e == "j": self.want.append((W, "-".join(ws))); n += 2
                elif e == "add,": self.want.append(("add", ws[n])); self.want.append((W, ",")); n += 1
                else: self.want.append((e, ws[n])); n += 1
        self.text = " ".join(text)
        # at the start of a book <TS> at the start of the line makes all headings of the line titles
        if book_start and self.text.startswith("<"): self.want = [("m" + e if re.fullmatch("h[123]", e) else e, w) for e, w in self.want]

def words(tag):
    n = 0
    while True:
        n += 1
        yield f"{tag}{n}z"

def parse(B, BBB):
    """What was read: [(chapter, verse, kind, word)], headings without a place, and which words begin a paragraph or line"""
    res, C, V = [], None, None
    for e in B.books[BBB]._processedLines:
        m, t = e.getMarker(), e.getFullText() or ""
        if m.startswith("¬") or m in ("headers", "intro", "chapters", "v=", "c#", "id", "cl", "c~"): continue
        if m == "c": C, V = t, None; continue
        if m == "v": V = t; continue
        if m in ("v~", "p~"): res += tokens(t, C, V); continue
        if re.fullmatch("(s|mt|ms)[123]?", m):
            res.append((None, None, ("mh" if m[0] == "m" else "h") + (m[-1] if m[-1].isdigit() else "1"), re.sub(r"\s+", " ", t).strip())); continue
        res.append((None, None, "P", m))
        if t: res += tokens(t, C, V)
    return res

TOKEN = re.compile(r"\\([fx]) (.*?)\\\1\*|\\\+?(\w+) (.*?)\\\+?\3\*|([^\s\\]+)")
def tokens(t, C, V):
    out = []
    for m in TOKEN.finditer(t):
        if m[1]:
            n = re.sub(r"\\(ft|fr|fq|xt|xo) ?", "", m[2]).strip()
            out.append((C, V, m[1], n.split(" ", 1)[-1]))
        elif m[3]: out += [(C, V, m[3], w) for w in m[4].split()]
        else: out.append((C, V, W, m[5]))
    rest = TOKEN.sub("", t).strip()
    if rest: out.append((C, V, "?", rest))
    return out

def wanted(verses):
    """verses: [(BBB, C, V, Verse)] in order"""
    res, book = [], None
    for BBB, C, V, v in verses:
        if book != BBB and res and res[-1][2] == "P": res.pop() # a paragraph at the end of a book is the last thing in it
        book = BBB
        for e, w in v.want:
            if e == "P": # a paragraph or line begins; right at the end of another one it replaces that
                if res and res[-1][2] == "P": res.pop()
                res.append((None, None, "P", w))
            elif re.fullmatch("m?h[123]", e): res.append((None, None, e, w))
            else: res.append((str(C), str(V), e, w))
    return res

def split(events):
    """The words, notes and headings in order; and the pairs of words around each paragraph beginning (without headings near)"""
    flat, breaks, last, pending, near = [], set(), None, (), False
    for C, V, e, w in events:
        if e == "P": pending += (w,); continue
        flat.append((C, V, e, w))
        if e[-1] in "123" and e[:-1] in ("h", "mh"): near = True; pending = (); continue
        if e in "fx": continue
        if pending and not near: breaks.add((last, pending, w))
        last, pending, near = w, (), False
    return flat, breaks

def compare(ctx, key, got, want):
    g, gb = split(got); w, wb = split(want)
    if ctx.equal(g, w, key, "words, notes and headings read"):
        ctx.equal(sorted(gb, key=str), sorted(wb, key=str), key, "beginnings of paragraphs and lines with the words around them")

# A module is a dictionary (BBB, C, V) -> text
def theWord(folder, module, kind="ont", bom=True, encoding="utf-8", eol="\n", info=True):
    books = CANON if kind == "ont" else CANON[:39] if kind == "ot" else CANON[39:]
    f = folder / f"m.{kind}"
    with open(f, "w", encoding=encoding, newline="") as out:
        if bom: out.write(BOM)
        for BBB in books:
            for C, n in enumerate(KJV[BBB], 1):
                for V in range(1, n + 1): out.write(module.get((BBB, C, V), "") + eol)
        if info: out.write(eol + f"id=TST{eol}# a comment{eol}description=A test{eol}about=one \\{eol}two{eol}")
    B = theWordBible(str(folder), f.name)
    B.load()
    return B

def MySwordFile(folder, module, OT=1, NT=1):
    f = folder / "m.bbl.mybible"
    if f.exists(): f.unlink()
    db = sqlite3.connect(f)
    db.execute("CREATE TABLE Details (Description NVARCHAR(255), Abbreviation NVARCHAR(50), Comments TEXT, Version TEXT, VersionDate DATETIME, PublishDate DATETIME, RightToLeft BOOL, OT BOOL, NT BOOL, Strong BOOL)")
    db.execute("INSERT INTO Details VALUES ('A test','TST','','1','2020-01-01','2020-01-01',0,?,?,0)", (OT, NT))
    db.execute("CREATE TABLE Bible (Book INT, Chapter INT, Verse INT, Scripture TEXT)")
    db.executemany("INSERT INTO Bible VALUES (?,?,?,?)", [(CANON.index(b) + 1, c, v, t) for (b, c, v), t in module.items()])
    db.commit(); db.close()
    return f

def MySword(folder, module, OT=1, NT=1, order=None):
    f = MySwordFile(folder, module, OT, NT)
    B = MySwordBible(str(folder), f.name)
    B.preload()
    if order is None: B.load()
    else:
        for BBB in order: B.loadBook(BBB)
    return B

READ = {"theWord": theWord, "MySword": MySword}
PLACES = ("bookstart", "first", "mid", "last", "bookend")

def slots(place):
    """Where a case can be put: [(verses of the case, the one with the sequence)]; the last one is the plain verse after"""
    out = []
    for i, BBB in enumerate(CANON):
        n = KJV[BBB]
        if place == "bookstart": out.append([(BBB, 1, 1), (BBB, 1, 2)])
        elif place == "first": out += [[(BBB, c, 1), (BBB, c, 2)] for c in range(2, len(n) + 1)]
        elif place == "mid": out += [[(BBB, c, 2), (BBB, c, 3)] for c in range(1, len(n) + 1) if n[c - 1] > 3]
        elif place == "last": out += [[(BBB, c, n[c - 1]), (BBB, c + 1, 1)] for c in range(1 + i % 2, len(n), 2)]
        elif i % 2 == 0 and i < 65: out.append([(BBB, len(n), n[-1]), (CANON[i + 1], 1, 1)])
    return out

def follow(BBB, C, V): return (BBB, C, V + 1) if V < KJV[BBB][C - 1] else None

def batch(ctx, fmt, place, seqs, sl):
    """One module with a case in each slot"""
    module, cases = {}, []
    for k, (seq, slot) in enumerate(zip(seqs, sl)):
        verses = []
        if place == "mid": verses.append((*slot[0][:2], 1, Verse(("w",), words(f"b{k}"))))
        for (BBB, C, V), s in zip(slot, (seq, ("w",)) if len(slot) == 2 and not isinstance(seq[0], tuple) else seq):
            verses.append((BBB, C, V, Verse(s, words(f"w{k}v{len(verses)}"), C == 1 and V == 1)))
        for BBB, C, V, v in verses: module[BBB, C, V] = v.text
        cases.append((seq, verses))
    try: B = READ[fmt](ctx.scratch(), module)
    except Exception as e:
        if len(cases) == 1: ctx.violation(f"{fmt} {place} {cases[0][0]}", f"reading the module raised {e!r}"); return
        h = len(cases) // 2
        batch(ctx, fmt, place, seqs[:h], sl[:h]); batch(ctx, fmt, place, seqs[h:len(cases)], sl[h:len(cases)])
        return
    got = {}
    for BBB in B.books:
        C = None
        hold = [] # headings and paragraphs go with the words after them
        for ev in parse(B, BBB):
            if ev[0] is None: hold.append(ev)
            else:
                got.setdefault((BBB, ev[0], ev[1]), []).extend(hold + [ev]); hold = []
        if hold: got.setdefault((BBB, "end", ""), []).extend(hold)
    for seq, verses in cases:
        key = f"{fmt} {place} {' '.join(map(str, seq))} ({verses[0][0]} {verses[0][1]})"
        with ctx.case(key):
            ctx.step(); ctx.state(fmt, place, seq)
            read = []
            for BBB, C, V, v in verses: read += got.pop((BBB, str(C), str(V)), [])
            compare(ctx, key, read, wanted(verses))
    key = f"{fmt} {place} batch {seqs[0]}"
    with ctx.case(key):
        left = {k: v for k, v in got.items() if any(e[2] != "P" for e in v)}
        ctx.equal(left, {}, key, "things read where the module has none")
        ctx.equal(sorted(B.books), sorted({BBB for BBB, C, V in module}), key, "books read")
        if fmt == "theWord":
            info = B.suppliedMetadata["theWord"]
            ctx.equal([info.get(k) for k in ("id", "description")], ["TST", "A test"], key, "information about the module")
            ctx.equal(set(info), {"id", "description", "about"}, key, "fields of the information about the module")
        else: ctx.equal([B.suppliedMetadata["MySword"].get(k) for k in ("Abbreviation", "Description")], ["TST", "A test"], key, "information about the module")

def good(seq): return all(p not in ONE for p in seq[1:]) and all(p not in LAST for p in seq[:-1]) and seq[-1] != "lone"

def sequences(tier):
    res = [s for n in (1, 2) for s in itertools.product(BASE, repeat=n) if good(s)]
    res += [s for x in MORE for s in ((x,), ("w", x), (x, "w"), ("w", x, "w"), ("head", x), (x, "note")) if good(s)]
    res += [s for s in itertools.product(BASE if tier != "quick" else FEW, repeat=3) if good(s)]
    return res

def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]

def shards(tier):
    res = [("pairs", fmt, place) for fmt in READ for place in ("mid", "last", "bookend")] + [("files", k) for k in ("ont", "ot", "nt")] + [("gaps", f) for f in READ] + [("orders",)]
    return res + [("seqs", fmt, place, i) for fmt in READ for place in PLACES for i in range(8 if tier == "quick" else 24)]

def run(ctx, shard):
    if shard[0] == "seqs":
        _, fmt, place, i = shard
        n = 8 if ctx.quick else 24
        mine = sequences("quick" if ctx.quick or fmt == "MySword" else "thorough")[i::n]
        if fmt == "MySword" and ctx.quick: mine = [s for s in mine if len(s) < 3]
        sl = slots(place)
        for part in chunks(mine, len(sl)): batch(ctx, fmt, place, part, sl)
        ctx.sample(f"{fmt} {place} {mine[0]}")
    elif shard[0] == "pairs":
        _, fmt, place = shard
        P = [(p,) for p in BASE if p != "lone"]
        sl = [s + [follow(*s[-1])] for s in slots(place) if follow(*s[-1])]
        for part in chunks([(a, b, ("w",)) for a in P for b in P], len(sl)): batch(ctx, fmt, place, part, sl)
    elif shard[0] == "files": files(ctx, shard[1])
    elif shard[0] == "gaps": gaps(ctx, shard[1])
    else: ordersOf(ctx)

def plain(B):
    out = []
    for BBB in B.books:
        for C, V, e, w in parse(B, BBB):
            if e == W: out.append((BBB, C, V, w))
    return sorted(out)

def files(ctx, kind):
    """The kinds of theWord files"""
    books = CANON if kind == "ont" else CANON[:39] if kind == "ot" else CANON[39:]
    for bom, enc, eol, info in itertools.product((True, False), ("utf-8", "latin-1"), ("\n", "\r\n"), (True, False)):
        if bom and enc != "utf-8": continue
        module = {(BBB, c, v): f"caf\xe9{i} {BBB}" for BBB in books for i, (c, v) in enumerate(((1, 1), (len(KJV[BBB]), KJV[BBB][-1])))}
        key = f"theWord file {kind} bom={bom} {enc} {eol!r} info={info}"
        with ctx.case(key):
            ctx.step(); ctx.state(key)
            B = theWord(ctx.scratch(), module, kind, bom, enc, eol, info)
            ctx.equal(plain(B), sorted((b, str(c), str(v), w) for (b, c, v), t in module.items() for w in t.split()), key, "words read")
            i = B.suppliedMetadata["theWord"]
            ctx.equal((i.get("id"), i.get("description"), sorted(i)), ("TST", "A test", ["about", "description", "id"]) if info else (None, None, []), key, "information about the module")
            ctx.equal(list(B.books), books, key, "books read")
    if kind == "ont": return
    module = {(BBB, 1, 1): f"text {BBB}" for BBB in books}
    key = f"MySword {kind}"
    with ctx.case(key):
        B = MySword(ctx.scratch(), module, kind == "ot", kind == "nt")
        ctx.equal(plain(B), sorted((b, str(c), str(v), w) for (b, c, v), t in module.items() for w in t.split()), key, "words read")
        ctx.equal(list(B.books), books, key, "books read")

def gaps(ctx, fmt):
    """Which of the verses at a chapter limit are there"""
    sl = [(BBB, c) for BBB in CANON for c in range(1, len(KJV[BBB]), 2)]
    module, want = {}, {}
    for ending in ("", "<CM>"):
        for n, (BBB, c) in enumerate(sl):
            last = KJV[BBB][c - 1]
            for i, (C, V) in enumerate(((c, last - 1), (c, last), (c + 1, 1), (c + 1, 2))):
                if n >> i & 1: module[BBB, C, V] = f"t{n}i{i}z{ending}"
        key = f"{fmt} gaps {ending}"
        with ctx.case(key):
            ctx.step(); ctx.state(key)
            B = READ[fmt](ctx.scratch(), module)
            got = plain(B)
            want = sorted((b, str(c), str(v), t.replace("<CM>", "")) for (b, c, v), t in module.items())
            bad = sorted(set(got) ^ set(want))
            ctx.expect(got == want, key, lambda: f"words read differ at {bad[:6]} (model on the right of {len(bad)})")
            ctx.equal(list(B.books), [b for b in CANON if any(k[0] == b for k in module)], key, "books read")

def ordersOf(ctx):
    """MySword books read one by one, in any order, some again"""
    module = {}
    for BBB in ("GEN", "RUT", "JDE"):
        for k, p in enumerate(BASE):
            module[BBB, 1, k + 1 if k + 1 < KJV[BBB][0] else KJV[BBB][0]] = Verse((p, "w"), words(f"{BBB.lower()}{k}"), k == 0).text
    whole = MySword(ctx.scratch(), module)
    want = {BBB: parse(whole, BBB) for BBB in whole.books}
    for n in (1, 2, 3):
        for order in itertools.product(("GEN", "RUT", "JDE", "MAT"), repeat=n):
            key = f"MySword by book {' '.join(order)}"
            with ctx.case(key):
                ctx.step(); ctx.state(key)
                B = MySword(ctx.scratch(), module, order=order)
                ctx.equal({BBB: parse(B, BBB) for BBB in B.books}, {BBB: want[BBB] for BBB in order if BBB != "MAT"}, key, "books read")
