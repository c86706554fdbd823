"""U07: a Bible gives the same answers however its books were loaded."""
import itertools, multiprocessing, os, pickle
import lib

PROP = dict(
    title="A Bible answers the same in whatever way and order its books are loaded",
    statement="Whether the books of a Bible folder are loaded all at once, by several processes, one by one, or only when a question needs them, and in whatever order, every question about a book is answered from its file: "
              "as the file was when the book was first loaded, or when it was last loaded again after being marked as needing that or by reloading it. Books which the folder does not have are answered as absent each time, "
              "loading what is loaded already changes nothing, and the Bible counts and lists exactly the books loaded so far.",
    over=["histories", "inputs"],
    qtext="every history of up to three (partly four) loads, questions, file changes, marks and reloads over a folder of three books, for the USFM, USFM2, ESFM and USX readers",
    why="The tests load complete Bibles once; stale or missing books only show after particular sequences.",
    files=["BibleOrgSys/Internals/InternalBible.py", "BibleOrgSys/Formats/USFMBible.py", "BibleOrgSys/Formats/USFM2Bible.py", "BibleOrgSys/Formats/ESFMBible.py", "BibleOrgSys/Formats/USXXMLBible.py"],
    mechanism=[("loadBookIfNecessary/reloadBook", "BibleOrgSys/Internals/InternalBible.py"), ("loadBook/_loadBookMP/loadBooks", "BibleOrgSys/Formats/{USFM,USFM2,ESFM,USXXML}Bible.py")],
)
BOUNDS = "all histories of <=3 operations out of 14 and of 4 out of 9 (quick), of <=4 and of 5 (thorough), on three books of two or three versions each, for four readers; histories of <=4 (thorough: <=5) loads, questions, marks and writes of a book whose file is absent or blank for a while; ranges over two and three books after each order of loading some of them"
ASSUMPTIONS = ["several processes are modelled by a pool that copies its function, arguments and results between processes and runs them in turn (the books are independent)"]

KINDS = ("three", "two", "esfm", "usx")
BOOKS = {"GEN": "01-GEN", "EXO": "02-EXO", "LEV": "03-LEV"}
FULL = ["QG", "QE", "QL", "QM", "LG", "LE", "IG", "A", "M", "WG", "NG", "RG", "RE", "D"]
SMALL = ["QG", "QE", "LG", "A", "M", "WG", "NG", "RG", "D"]
LETTER = dict(G="GEN", E="EXO", L="LEV", M="MAT")

class Pool:
    def __init__(self, processes=None, *a, **kw): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def map(self, fn, it, *a, **kw):
        return [pickle.loads(pickle.dumps((lambda f, x: f(x))(*pickle.loads(pickle.dumps((fn, x)))))) for x in it]
    imap = starmap = map
    def close(self): pass
    def join(self): pass

def setup(tier):
    global G
    G = lib.bos()
    multiprocessing.Pool = Pool

def shards(tier):
    top = [(k, "full", a, b) for k in KINDS for a in FULL for b in FULL]
    return [(k, "range", None, None) for k in KINDS] + [(k, "missing", a, None) for k in KINDS for a in MISSING] + top + [(k, "small", a, b) for k in KINDS for a in SMALL for b in SMALL]

def content(kind, code, n):
    verses = [f"{code.lower()} version{n} verse{v}" for v in range(1, n + 2)]
    if kind == "usx":
        return f'<?xml version="1.0" encoding="utf-8"?>\n<usx version="2.0">\n  <book code="{code}" style="id">test</book>\n  <chapter number="1" style="c" />\n  <para style="p">\n' + "".join(f'    <verse number="{i}" style="v" />{v}\n' for i, v in enumerate(verses, 1)) + "  </para>\n</usx>\n"
    return f"\\id {code} test\n" + ("\\rem ESFM v0.6 GEN\n" if kind == "esfm" else "") + f"\\h {code.title()}\n\\c 1\n\\p\n" + "".join(f"\\v {i} {v}\n" for i, v in enumerate(verses, 1))

def write(kind, d, code, n):
    (d / (BOOKS[code] + dict(three=".usfm", two=".usfm", esfm=".ESFM", usx=".usx")[kind] if kind != "usx" else f"{BOOKS[code][:2]}{code}.usx".replace("01", "001").replace("02", "002").replace("03", "003"))).write_text(content(kind, code, n), encoding="utf-8")

def make(kind, d):
    if kind == "three": from BibleOrgSys.Formats.USFMBible import USFMBible as K
    elif kind == "two": from BibleOrgSys.Formats.USFM2Bible import USFM2Bible as K
    elif kind == "esfm": from BibleOrgSys.Formats.ESFMBible import ESFMBible as K
    else: from BibleOrgSys.Formats.USXXMLBible import USXXMLBible as K
    B = K(str(d), "Test")
    B.preload()
    return B

def ask(B, code):
    """(verse text or None when absent, number of chapters, number of verses)"""
    data = B.getContextVerseData((code, "1", "1"))
    text = None if data is None else "".join(e.getCleanText() for e in data[0] if e.getMarker() == "v~")
    return text, B.getNumChapters(code), B.getNumVerses(code, "1")

def history(ctx, kind, ops):
    key = f"{kind}: " + " ".join(ops)
    with ctx.case(key, data=ops):
        d = ctx.scratch("b")
        disk, loaded, need, discovered = {}, {}, set(), {}
        for code in BOOKS: disk[code] = 1; write(kind, d, code, 1)
        B = make(kind, d)
        def load(code):
            if code in BOOKS and (code not in loaded or code in need): loaded[code] = disk[code]; need.discard(code)
        def question(code):
            load(code)
            want = (f"{code.lower()} version{loaded[code]} verse1", 1, loaded[code] + 1) if code in BOOKS else (None, None, None)
            got = ask(B, code)
            return ctx.equal(got, want, key, f"answer for {code}", ops)
        for op in ops:
            ctx.step()
            o, code = op[0], LETTER.get(op[1:])
            if o == "Q":
                if not question(code): return
            elif o == "L": B.loadBook(code); load(code)
            elif o == "I": B.loadBookIfNecessary(code); load(code)
            elif o in "AM":
                if o == "M": G.maxProcesses = 4
                try: B.loadBooks()
                finally: G.maxProcesses = 1; G.alreadyMultiprocessing = False
                for c in BOOKS: load(c)
                ctx.expect(B.loadedAllBooks, key, "not all books are loaded", ops)
            elif o == "W": disk[code] += 1; write(kind, d, code, disk[code])
            elif o == "N":
                if code in loaded: need.add(code); B.bookNeedsReloading[code] = True
            elif o == "R":
                B.reloadBook(code)
                need.add(code); load(code)
            elif o == "D":
                if B.books: B.discover()
            ctx.equal((sorted(B.books), len(B)), (sorted(loaded), len(loaded)), key, f"loaded books after {op}", ops)
            for c in loaded:
                if c not in B.books: return
                got = sum(1 for e in B.books[c]._processedLines if e.getMarker() == "v")
                if not ctx.equal(got, loaded[c] + 1, key, f"verses of {c} after {op}", ops): return
                if o == "R" and c == code and "discoveryResults" in B.__dict__: ctx.equal(B.discoveryResults[c]["verseCount"] if "verseCount" in B.discoveryResults[c] else None, loaded[c] + 1, key, "discovered verses", ops)
        ctx.state(tuple(sorted(disk.items())), tuple(loaded.items()), tuple(sorted(need)))
        for c in (*BOOKS, "MAT"):
            if not question(c): return

def ranges(ctx, kind):
    """A range over several books after every order of loading some of the books first"""
    for k in range(0, 4):
        for first in itertools.permutations(BOOKS, k):
            for start, end in (("GEN", "EXO"), ("EXO", "LEV"), ("GEN", "LEV")):
                key = f"{kind}: load {' '.join(first)} range {start}-{end}"
                with ctx.case(key):
                    d = ctx.scratch("b")
                    for code in BOOKS: write(kind, d, code, 1)
                    B = make(kind, d)
                    for c in first: B.loadBook(c)
                    ctx.step(k + 1)
                    got = B.getContextVerseDataRange((start, "1", "1"), (end, "1", "2"))
                    names = list(BOOKS)
                    want = [f"{c.lower()} version1 verse{v}" for c in names[names.index(start):names.index(end) + 1] for v in (1, 2)]
                    ctx.equal([e.getCleanText() for e in got[0] if e.getMarker() == "v~"], want, key, "verses of the range")

MISSING = ["QE", "IE", "XE", "ZE", "WE", "NE", "QG"]

def missing(ctx, kind, ops):
    """Histories in which the file of Exodus is absent or blank for a while; nothing is asked of a marked book which is loaded while its file is away"""
    key = f"{kind}: missing " + " ".join(ops)
    disk, loaded, tried, need, n = 1, None, False, False, 1
    steps = []
    for op in ops + ("QE",):
        if op in ("QE", "IE"):
            if loaded is None and (not tried or need) or loaded and need:
                if disk is None and loaded: return None                                # what is left of the book then is not stated
                loaded, tried, need = disk or None, True, False
        elif op == "XE": disk = None
        elif op == "ZE": disk = 0
        elif op == "WE": n += 1; disk = n
        elif op == "NE": need = True
        if disk == 0 and loaded and need: return None
        steps.append((op, disk, loaded))
    with ctx.case(key, data=ops):
        d = ctx.scratch("b")
        for code in ("GEN", "EXO"): write(kind, d, code, 1)
        before = set(os.listdir(d))
        B = make(kind, d)
        (file,) = [d / f for f in before if "EXO" in f]
        for op, disk, loaded in steps:
            ctx.step()
            if op[0] == "Q":
                code = LETTER[op[1]]
                want = (None, None, None) if code == "EXO" and loaded is None else (f"{code.lower()} version{loaded if code == 'EXO' else 1} verse1", 1, (loaded if code == "EXO" else 1) + 1)
                if not ctx.equal(ask(B, code), want, key, f"answer for {code}", ops): return
            elif op == "IE": B.loadBookIfNecessary("EXO")
            elif op == "XE": file.unlink(missing_ok=True)
            elif op == "ZE": file.write_text("")
            elif op == "WE": write(kind, d, "EXO", disk)
            elif op == "NE": B.bookNeedsReloading["EXO"] = True
            if not ctx.equal("EXO" in B.books, loaded is not None, key, f"EXO loaded after {op}", ops): return
        ctx.state("missing", disk, loaded)

def run(ctx, shard):
    kind, alphabet, a, b = shard
    if alphabet == "missing":
        for k in range(0, 4 if ctx.quick else 5):
            for rest in itertools.product(MISSING, repeat=k):
                if kind != "usx" or "ZE" not in (a,) + rest: missing(ctx, kind, (a,) + rest)     # a blank file is no XML
                if ctx.full: return
        return
    if alphabet == "range": return ranges(ctx, kind)
    if alphabet == "full":
        if b == FULL[0]: history(ctx, kind, (a,))
        for k in range(0, 2 if ctx.quick else 3):
            for rest in itertools.product(FULL, repeat=k):
                history(ctx, kind, (a, b) + rest)
                if ctx.full: return
    else:
        for rest in itertools.product(SMALL, repeat=2 if ctx.quick or kind in ("two", "esfm") else 3):
            history(ctx, kind, (a, b) + rest)
            if ctx.full: return
