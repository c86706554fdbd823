"""U01: USFM / ESFM / SFM files read line by line and as books (all line sequences up to a depth against a reference reader)."""
import itertools, re
import lib

PROP = dict(
    title="Reading a USFM or ESFM file keeps every marker and every word",
    statement="Loading a USFM, USFM2 or ESFM book gives its paragraph-level lines in file order with exactly the text of the file: physical continuation lines, and lines that begin "
              "with a character or note marker, are joined to the line before; a paragraph marker inside a line starts a new line; tildes become no-break spaces; blank and comment lines, a byte "
              "order mark, the kind of line ending and text before the first marker change nothing. A line is left out only if its marker is unknown, and then it is reported among the load errors. "
              "The plain SFM readers give exactly the marker/text pairs of the file, less the markers they are told to ignore.",
    over=["inputs", "histories"],
    qtext="all sequences of physical lines (paragraphs, verses, continuations, character, closing and note markers at the start of a line, in-line paragraph markers, blank, comment, unknown) up to a depth, for every reader, line ending, byte order mark, encoding and ignore list",
    why="The joining code works one line behind and its result depends on which line precedes which; the tests load a handful of well-formed files.",
    files=["BibleOrgSys/Formats/USFMBibleBook.py", "BibleOrgSys/Formats/USFM2BibleBook.py", "BibleOrgSys/Formats/ESFMBibleBook.py", "BibleOrgSys/InputOutput/USFMFile.py", "BibleOrgSys/InputOutput/ESFMFile.py", "BibleOrgSys/InputOutput/SFMFile.py"],
    mechanism=[("USFMBibleBook.load / doaddLine", "BibleOrgSys/Formats/USFMBibleBook.py"), ("splitUSFMMarkerFromText / USFMFile.read", "BibleOrgSys/InputOutput/USFMFile.py"), ("SFMLines.read / SFMRecords.read", "BibleOrgSys/InputOutput/SFMFile.py")],
)
BOUNDS = "books: every sequence of 3 (quick) / 4 (thorough) of 18 physical lines after \\id, for 3 book classes; files: every sequence of 3 / 4 of 12 lines x 3 readers x ignore lists; line endings, byte order marks, final newlines and encodings in turn over all sequences; records: every sequence of 4 / 5 of 8 lines x keys x ignore lists x renamings"
ASSUMPTIONS = ["a book starts with an \\id line", "where two physical lines are joined before a character marker there may be one space or several", "a paragraph marker inside a line is followed by a space", "no unfoldingWord alignment milestones (D01 covers them)"]

def setup(tier):
    global B, SFM, USFM, ESFM, REC, G
    G = lib.bos()
    from BibleOrgSys.Formats.USFMBibleBook import USFMBibleBook
    from BibleOrgSys.Formats.USFM2BibleBook import USFM2BibleBook
    from BibleOrgSys.Formats.ESFMBibleBook import ESFMBibleBook
    from BibleOrgSys.InputOutput.SFMFile import SFMLines as SFM, SFMRecords as REC
    from BibleOrgSys.InputOutput.USFMFile import USFMFile as USFM
    from BibleOrgSys.InputOutput.ESFMFile import ESFMFile as ESFM
    B = {"USFM": USFMBibleBook, "USFM2": USFM2BibleBook, "ESFM": ESFMBibleBook}

# physical line -> how a reader must take it
#   ("new", [(marker, text)...])  starts lines;  ("cont", text)  joins with a space;  ("char", text)  joins;  ("note", text);  ("skip",);  ("unknown", name)
LINES = {
    r"\c 2": ("new", [("c", "2")]),
    r"\p": ("new", [("p", "")]),
    r"\p para text": ("new", [("p", "para text")]),
    r"\q1": ("new", [("q1", "")]),
    r"\v 1 In the~end": ("new", [("v", "1 In the\u00a0end")]),
    r"\v 2 b\f + \fr 2 \ft n\f* c": ("new", [("v", r"2 b\f + \fr 2 \ft n\f* c")]),
    r"\v 3 one \q2 two": ("new", [("v", "3 one"), ("q2", "two")]),
    r"\v 4 x\p \v 5 y": ("new", [("v", "4 x"), ("p", ""), ("v", "5 y")]),
    r"\v6 glued": ("new", [("v", "6 glued")]),
    r"\s1 Head": ("new", [("s1", "Head")]),
    "more words": ("cont", "more words"),
    "tilde~d, then \\nd L\\nd*": ("cont", "tilde\u00a0d, then \\nd L\\nd*"),
    r"\nd Lord\nd* said": ("char", r"\nd Lord\nd* said"),
    r"\add* after": ("close", r"\add*", "after"),
    r"\f + \ft note\f* on": ("note", r"\f + \ft note\f* on"),
    r"\x - \xt Gen 1\x* x": ("note", r"\x - \xt Gen 1\x* x"),
    r"\zmine custom": ("unknown", "zmine"),
    "": ("skip",),
    "# remark \\p": ("skip",),
}
ESFM_STANDARD = {}
MID = [l for l in LINES]

class Model:
    """The reference reader: a list of logical lines, each a list of pieces; None is a place where spaces may differ."""
    def __init__(self): self.out, self.unknown, self.dropping = [], [], False
    def feed(self, line):
        how = LINES[line]
        if how[0] == "skip": return
        if how[0] == "new":
            self.dropping = False
            for m, t in how[1]: self.out.append([m, t])
        elif how[0] == "unknown":
            self.unknown.append(how[1]); self.dropping = True
        elif how[0] == "cont":
            if self.dropping: return            # it belongs to the line which was reported
            self.out[-1].append(" "); self.out[-1].append(how[1])
        else:
            # character and note markers start a "line" of their own kind: what follows an unknown line is kept again
            self.dropping = False
            self.out[-1] += [None, how[1]] if how[0] != "close" else [None, how[1], None, how[2]]
    def patterns(self):
        res = []
        for m, *pieces in self.out:
            res.append((m, "".join(" *" if p is None else re.escape(p) if p != " " else " " for p in pieces)))
        return res

def matches(got, patterns):
    if len(got) != len(patterns): return False
    for (m, t), (wm, wp) in zip(got, patterns):
        if m != wm: return False
        # a line whose own text was empty, or which was broken, may have its joint at either end
        if re.fullmatch(wp, t) is None and re.fullmatch(wp, t.strip(" ")) is None and re.fullmatch(wp, " " + t) is None: return False
    return True

EOLS = [("\n", ""), ("\r\n", ""), ("\n", "nofinal")]

def shards(tier):
    res = [("book", cls, a, b) for cls in ("USFM", "USFM2", "ESFM") for a in range(len(MID)) for b in (range(0, len(MID), 5) if tier != "quick" else [None])]
    res += [("form", cls, a) for cls in ("USFM", "USFM2", "ESFM") for a in range(0, len(MID), 3)]
    res += [("file", r, a) for r in ("SFM", "USFM", "ESFM") for a in range(len(FLINES))]
    res += [("rec", a, k) for a in range(len(RLINES)) for k in range(len(KEYS))]
    res += [("split",)]
    return res

def load(cls, folder, data, enc="utf-8"):
    p = folder / "x.usfm"
    p.write_bytes(data)
    book = B[cls](_container(), "GEN")
    if cls == "ESFM": book.load("x.usfm", str(folder))
    else: book.load("x.usfm", str(folder), enc)
    return book

class _container_cls:
    """What the book classes need of the Bible they belong to."""
    objectNameString = "checker"; objectTypeString = "USFM"; name = abbreviation = workName = "Test"; uWencoded = False
    def getAName(self): return "Test"
_C = _container_cls()
def _container(): return "Test"

def check_book(ctx, folder, cls, lines, eol="\n", bom=False, final=True, enc="utf-8", pre=""):
    text = pre + "\\id GEN t\u00e9st" + eol + eol.join(lines) + (eol if final else "")
    key = f"{cls}|{enc}|{'bom|' if bom else ''}{text!r}"
    model = Model(); model.out.append(["id", "GEN t\u00e9st"])
    for l in lines: model.feed(l)
    with ctx.case(key):
        ctx.step(len(lines))
        data = (b"\xef\xbb\xbf" if bom else b"") + text.encode(enc)
        book = load(cls, folder, data, enc)
        got = [(m, t) for m, t in book._rawLines]
        pats = model.patterns()
        if cls == "ESFM": pats = [(G.loadedUSFMMarkers.toStandardMarker(m), p) for m, p in pats]
        ctx.state(cls, tuple(got))
        if not matches(got, pats):
            ctx.violation(key, f"the book's lines are {lib.short(got)} but the file says {lib.short(pats)}", list(lines)); return
        if model.unknown:
            errors = " ".join(map(str, book.checkResultsDictionary.get("Load Errors", [])))
            for u in model.unknown: ctx.expect(u in errors, key, lambda: f"the line with the unknown marker {u} was dropped without a load error: {errors}")
        ctx.sample(text)

FLINES = [r"\id GEN", r"\v 1 a b", r"\v 2", r"\p", r"\q1\v 3 x", r"\ts\*", r"\w*d", "words on", "  indented", "", "# c", r"\s a \nd b\nd*", " "]
def split_model(line):
    """marker, text by the rule: the marker ends before a space (dropped), after a star, or before a backslash (unless that is \\*, which belongs to it)."""
    m = re.match(r"\\([^ *\\]*)(.*)$", line, re.S)
    mk, rest = m.groups()
    if rest.startswith(" "): return mk, rest[1:]
    if rest.startswith("*"): return mk + "*", rest[1:]
    if rest.startswith("\\*"): return mk + "\\*", rest[2:]
    return mk, rest
def sfm_split(line):
    m = re.match(r"\\([^ \\]*)( ?)(.*)$", line, re.S)
    return m.group(1), m.group(3)

def file_model(reader, lines, ignore):
    out, last, started = [], None, False
    for l in lines:
        if not l or l[0] == "#": continue
        if reader == "ESFM": l = l.lstrip(" ")
        if not l: continue
        if l[0] != "\\":
            if not out: continue
            if last not in ignore: out[-1] = (out[-1][0], out[-1][1] + " " + l)
            continue
        last, text = (sfm_split if reader == "SFM" else split_model)(l)
        if last not in ignore: out.append((last, text))
    return out

KEYS = [None, "lx", "sn"]
RLINES = [r"\lx word", r"\lx", r"\ge gloss", r"\sn 1", "more", "", r"\lx word\hm 2", r"\ge skip"]

def rec_model(lines, key, ignoreSFMs, ignoreEntries, changes):
    recs, rec = [], []
    def push():
        if rec and rec[0][1] not in ignoreEntries:
            kept = [(m, t) for m, t in rec if m not in ignoreSFMs]
            if kept: recs.append(kept)
    for l in lines:
        if not l or l[0] == "#": continue
        if l[0] != "\\":
            if not rec: return None
            rec[-1] = (rec[-1][0], rec[-1][1] + " " + l); continue
        m, t = sfm_split(l)
        m = dict(changes).get(m, m)
        if not key and m not in ignoreSFMs: key = m
        if m == key: push(); rec = []
        rec.append((m, t))
    push()
    return recs

def run(ctx, shard):
    kind = shard[0]
    folder = ctx.scratch("f")
    if kind == "book":
        cls, a, b = shard[1:]
        if b is None: rests = itertools.product(MID, repeat=2)
        else: rests = ((x,) + y for x in MID[b:b + 5] for y in itertools.product(MID, repeat=2))
        for rest in rests:
            check_book(ctx, folder, cls, (MID[a],) + tuple(rest))
            if ctx.full: return
        if b in (None, 0):
            check_book(ctx, folder, cls, (MID[a],))
            for x in MID: check_book(ctx, folder, cls, (MID[a], x))
    elif kind == "form":
        cls, a = shard[1:]
        for first in MID[a:a + 3]:
            for second in MID:
                for eol, final, bom, enc, pre in itertools.product(("\n", "\r\n"), (True, False), (False, True), ("utf-8", "latin-1") if cls != "ESFM" else ("utf-8",), ("", "junk line\n", "\n\n", "# c\n")):
                    if enc != "utf-8" and bom: continue
                    check_book(ctx, folder, cls, (first, second), eol, bom, final, enc, pre)
                    if ctx.full: return
    elif kind == "file":
        reader, a = shard[1:]
        cls = {"SFM": SFM, "USFM": USFM, "ESFM": ESFM}[reader]
        n = 2 if ctx.quick else 3
        p = folder / "x.sfm"
        for k in range(0, n + 1):
            for rest in itertools.product(FLINES, repeat=k):
                lines = (FLINES[a],) + rest
                for final, bom in ((True, False), (False, False), (True, True)) if k <= 2 else ((True, False),):
                    data = ("\ufeff" if bom else "") + "\n".join(lines) + ("\n" if final else "")
                    p.write_text(data, encoding="utf-8")
                    for ignore in ((), ("v",), ("p", "q1")) if final and not bom else ((),):
                        key = f"{reader}|{data!r}|{ignore}"
                        with ctx.case(key):
                            ctx.step(len(lines))
                            r = cls(); r.read(str(p), ignore)
                            want = file_model(reader, lines, ignore)
                            ctx.state(reader, tuple(want), ignore)
                            ctx.equal([tuple(x) for x in r.lines], want, key, "lines read", list(lines))
                    if ctx.full: return
    elif kind == "rec":
        a, key = shard[1], KEYS[shard[2]]
        p = folder / "x.sfm"
        for k in range(0, 4 if ctx.quick else 5):
            for rest in itertools.product(RLINES, repeat=k):
                lines = (RLINES[a],) + rest
                p.write_text("\n".join(lines) + "\n", encoding="utf-8")
                for ign, entries, changes in (((), (), ()), (("ge",), (), ()), (("sn", "hm"), ("word",), ()), ((), ("", "skip"), (("ge", "gloss"),)), ((), (), (("sn", "lx"), ("ge", "sn")))):
                    if k > 3 and changes: continue
                    name = f"rec|{lines}|{key}|{ign}|{entries}|{changes}"
                    want = rec_model(lines, key, ign, entries, changes)
                    with ctx.case(name):
                        ctx.step(len(lines))
                        r = REC()
                        try: r.read(str(p), key=key, ignoreSFMs=ign, ignoreEntries=entries, changePairs=changes); got = [[tuple(y) for y in x] for x in r.records]
                        except OSError: got = None
                        ctx.state("rec", repr(want), repr(key))
                        if not ctx.equal(got, want, name, "records", list(lines)): continue
                        if got:
                            small, large, markers, sets = r.analyze()
                            flat = [y for x in got for y in x]
                            ctx.equal((small, large, sorted(markers), {m: list(v) for m, v in sets.items()}),
                                      (min(map(len, got)), max(map(len, got)), sorted({m for m, _ in flat}), {m: list(dict.fromkeys(t for mm, t in flat if mm == m)) for m, _ in flat}), name, "analysis of the records")
                    if ctx.full: return
    else:
        from BibleOrgSys.InputOutput.USFMFile import splitUSFMMarkerFromText as S
        for k in range(0, 6 if ctx.quick else 8):
            for chars in itertools.product("a1 *\\", repeat=k):
                t = "".join(chars)
                line = "\\" + t
                with ctx.case(line):
                    ctx.step(); ctx.state("split", line)
                    ctx.equal(S(line), split_model(line), line, "marker and text of the line")
                    if t and t[0] != "\\": ctx.equal(S(t), (None, t), t, "a line without a marker")
