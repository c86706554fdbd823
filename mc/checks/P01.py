"""P01: a saved (pickled) Bible comes back the same (all bounded documents, data levels, ways and orders of loading)."""
import itertools, json, multiprocessing, os, pickle, zipfile
import lib
from checks import usfmdocs as U
from checks import L01
from checks import U02
from checks.U07 import Pool

PROP = dict(
    title="A Bible saved in pickled form comes back the same",
    statement="A Bible saved as a pickled Bible (of any data level, as files or only as a zip file) or as a pickled object gives, when it is loaded again, for every book exactly the same lines with the same texts and notes and the same answers to questions about "
              "chapters, verses and sections, and the same names and details; whether it is loaded from the folder or the zip file, all at once (with one process or several) or one book at a time when needed, and in whatever order. "
              "It has exactly the books that were saved, is found and counted in the folder and in folders below it, and saving leaves the original usable as before.",
    over=["inputs", "histories", "configurations"],
    qtext="all bounded documents as books of saved Bibles, for every data level, container and way of loading, and every short history of loads, questions, saves and exports",
    why="No test loads a saved Bible; which fields are saved differs by level, and lazily loaded books lack what loading all at once sets up.",
    files=["BibleOrgSys/Formats/PickledBible.py", "BibleOrgSys/BibleWriter.py", "BibleOrgSys/Internals/InternalBible.py", "BibleOrgSys/BibleOrgSysGlobals.py"],
    mechanism=[("createPickledBible/PickledBible/PickledBibleFileCheck", "BibleOrgSys/Formats/PickledBible.py"), ("toPickledBible/toPickleObject", "BibleOrgSys/BibleWriter.py"), ("pickle", "BibleOrgSys/Internals/InternalBible.py")],
)
BOUNDS = ("documents of a chapter with all sequences of <=3 lines (thorough: <=5 of fewer kinds), introductions, heads, in-line sequences of <=2 items, 24 books to a Bible, levels 1-3; histories of <=3 (thorough: <=4) of 9 operations on Bibles of 1-4 books x levels x containers; "
          "all folder layouts of two projects; all sequences of <=3 (4) of saving and exporting on one Bible")
ASSUMPTIONS = ["several processes are modelled by a pool that copies its function, arguments and results between processes and runs them in turn"]

SAVES = "O123TUD"
HIST = ["QG", "QE", "QM", "SG", "LE", "A", "P", "M", "F"]
LETTER = dict(G="GEN", E="EXO", M="MAT")
SMALL = {
    "GEN": [("id", "GEN x"), ("h", "Genesis"), ("mt1", "Genesis title"), ("c", "1"), ("s1", "First"), ("p", ""), ("v", "1 In \\add the\\add* beginning\\f + \\fr 1:1 \\ft note\\f*"), ("v", "2-3 abc"), ("s1", "Second"), ("q1", ""), ("v", "4 d"), ("c", "2"), ("s1", "Third"), ("p", ""), ("v", "1 e \\w word|lemma=\"l\"\\w*")],
    "EXO": [("id", "EXO"), ("c", "1"), ("p", ""), ("v", "1 exo"), ("v", "2 two")],
    "LEV": [("id", "LEV"), ("is1", "Intro"), ("ip", "text"), ("c", "1"), ("p", ""), ("v", "1 lev\\x - \\xo 1:1 \\xt Gen 1:1\\x*")],
    "JDE": [("id", "JUD"), ("h", "Jude"), ("c", "1"), ("p", ""), ("v", "1 jude")],
}

def setup(tier):
    U02.setup(tier)
    global G
    G = lib.bos()
    multiprocessing.Pool = Pool

def shards(tier):
    res = [("doc",) + s for s in U.documents(tier, quick=2, thorough=4)] + [("inline", l, i) for l in L01.LINES for i in range(len(L01.ITEMS)) if L01.ITEMS[i][0] != "str"]
    res += [("history", n, level, zipped, a) for n in (1, 2, 3, 4) for level in (1, 2, 3) for zipped in (False, True) for a in HIST]
    return res + [("folders",), ("details",), ("again",)] + [("saves", a, b) for a in SAVES for b in SAVES]

def make(books):
    """A Bible whose books know it, as the readers make it"""
    from BibleOrgSys.Bible import Bible
    from BibleOrgSys.Internals.InternalBibleBook import InternalBibleBook
    B = Bible()
    B.objectNameString, B.objectTypeString = "Test Bible object", "USFM3"
    B.name, B.abbreviation = "Test Bible", "TST"
    for code, raw in books.items():
        b = InternalBibleBook(B, code)
        b.objectNameString, b.objectTypeString, b.sourceFilepath = "Test book object", "USFM3", "nowhere"
        for m, t in raw: b.addLine(m, t.replace("GEN", code, 1) if m == "id" and t[:3] == "GEN" else t)
        B.stashBook(b)
    B.doPostLoadProcessing()
    return B

def answers(B, code, sections=True):
    lines = [U02.entry(e) for e in B.books[code]._processedLines]
    chapters = B.getNumChapters(code)
    res = [lines, chapters, [B.getNumVerses(code, str(c)) for c in range(0, (chapters or 0) + 2)]]
    C = "-1"; seen = []
    for m, _, _, t, *_ in lines:
        if m == "c": C = t
        elif m == "v" and C != "-1": seen.append((C, t))
    for C, V in dict.fromkeys(seen[:6]):
        try:
            d = B.getContextVerseData((code, C, V))
            res.append((C, V, None if d is None else ([U02.entry(e) for e in d[0]], list(d[1])), B.getVerseText((code, C, V))))
        except KeyError as e: res.append((C, V, str(e)))
    return res

def load(where, way, books, codes):
    """where: folder or zip file; way: all, several, each (the books in reverse order), lazy (by questions only), check (by the file check)"""
    from BibleOrgSys.Formats import PickledBible as P
    if way == "check": return P.PickledBibleFileCheck(where, autoLoad=True, autoLoadBooks=True)
    q = P.PickledBible(where)
    if way in ("each", "lazy"):
        q.preload()
        for c in reversed(codes): q.loadBook(c) if way == "each" else q.loadBookIfNecessary(c)
    else:
        if way == "several": G.maxProcesses = 4
        try: q.load()
        finally: G.maxProcesses = 1; G.alreadyMultiprocessing = False
    return q

def archive(folder):
    hits = [folder / f for f in os.listdir(folder) if f.endswith(".zip")]
    return hits[0] if len(hits) == 1 else None

def content(ctx, books, key0):
    """books: code -> raw lines"""
    with ctx.case(key0, seconds=100):
        B = make(books)
        codes = list(books)
        want = {c: answers(B, c) for c in codes}
        ctx.step(sum(map(len, books.values())))
        for level, zipped, way in ((1, False, "all"), (2, True, "lazy"), (3, False, "several"), (1, True, "each")):
            key = f"level {level} {'zip' if zipped else 'folder'} {way}: {key0}"
            folder = ctx.scratch("out")
            if not ctx.expect(B.toPickledBible(folder, None, level, zipped) is True, key, "saving did not report success"): continue
            where = archive(folder) if zipped else folder
            q = load(where, way, books, codes)
            if not ctx.expect(q and sorted(q.books) == sorted(codes), key, lambda: f"loaded {list(q.books)}"): continue
            for c in codes:
                ctx.trace()
                got = answers(q, c)
                if got != want[c]:
                    i = next(i for i, (a, b) in enumerate(itertools.zip_longest(got, want[c])) if a != b)
                    a, b = (got[i] if i < len(got) else None), want[c][i] if i < len(want[c]) else None
                    if i == 0: a, b = next(((x, y) for x, y in itertools.zip_longest(a, b) if x != y))
                    ctx.violation(f"level {level} {'zip' if zipped else 'folder'} {way}: {U.show(books[c])}", f"answer {i} of {c} is {lib.short(a)}, was {lib.short(b)}", books[c])
                else: ctx.state(level, tuple(x[:3] for x in got[0]))
    ctx.sample(key0)

def sections(B, c):
    b = B.books[c]
    b._makeBookSectionIndex()
    return [(k, v.startIx, v.endIx, v.endC, v.endV, v.getSectionNameReason()) for k, v in b._SectionIndex.items()]

def discovered(B):
    def plain(x):
        if isinstance(x, dict): return {str(k): plain(v) for k, v in x.items()}
        return sorted(map(plain, x), key=repr) if isinstance(x, (list, tuple, set)) else x         # lists are in the order of loading
    return json.dumps(plain(B.discoveryResults), sort_keys=True, default=str)

def details(B): return [B.name, B.abbreviation, B.givenName, B.shortName, B.version, B.getAName(), B.getAName(abbrevFirst=True)]

def histories(ctx, n, level, zipped, a):
    books = dict(list(SMALL.items())[:n])
    codes = list(books)
    B = make(books)
    B.version = "1.2"
    names = details(B)
    want = {c: answers(B, c) for c in codes}
    B.discover()
    secs = {c: sections(B, c) for c in codes}
    found = discovered(B)
    folder = ctx.scratch("out")
    ctx.expect(B.toPickledBible(folder, None, level, zipped) is True, "save", "saving did not report success")
    where = archive(folder) if zipped else folder
    from BibleOrgSys.Formats.PickledBible import PickledBible
    for k in range(0, 3 if ctx.quick else 4):
        for rest in itertools.product(HIST, repeat=k):
            ops = (a,) + rest
            key = f"{n} books level {level} {'zip' if zipped else 'folder'}: {' '.join(ops)}"
            with ctx.case(key, data=ops):
                q, have, full = PickledBible(where), [], False
                q.preload()
                def question(code):
                    if code in books:
                        q.loadBookIfNecessary(code)
                        if code not in have: have.append(code)
                        if not ctx.expect(code in q.books, key, f"{code} was not loaded", ops): return
                        ctx.expect(answers(q, code) == want[code], key, f"the answers for {code} differ", ops)
                        ctx.expect(q.books[code].containerBibleObject is q, key, f"{code} belongs to another Bible", ops)
                    else:
                        ctx.equal((q.getContextVerseData((code, "1", "1")), q.getNumChapters(code), q.getNumVerses(code, "1")), (None, None, None), key, f"answers for {code}", ops)
                for op in ops:
                    ctx.step(); code = LETTER.get(op[1:])
                    if op[0] == "Q": question(code)
                    elif op[0] == "L":
                        q.loadBook(code)
                        if code in books and code not in have: have.append(code)
                    elif op in "AM":
                        if op == "M": G.maxProcesses = 4
                        try: q.loadBooks()
                        finally: G.maxProcesses = 1; G.alreadyMultiprocessing = False
                        have = sorted(codes); full = True
                    elif op == "P": ctx.equal(details(q), names, key, "names", ops)
                    elif op[0] == "S":
                        q.loadBookIfNecessary(code)
                        if code not in have: have.append(code)
                        q.discover(); ctx.equal(sections(q, code), secs[code], key, f"sections of {code}", ops)
                    elif op == "F" and full:
                        q.discover()
                        ctx.equal(discovered(q), found, key, "discovery results", ops)
                    ctx.equal((sorted(q.books), len(q), q.loadedAllBooks), (sorted(have), len(have), full), key, f"loaded books after {op}", ops)
                ctx.state(n, tuple(have), full)
                for c in (*codes, "MAT"): question(c)
            if ctx.full: return

def folders(ctx):
    """The file check counts what is there, and loads it if it is exactly one"""
    from BibleOrgSys.Formats import PickledBible as P
    B = make({"GEN": SMALL["GEN"]}); C = make({"EXO": SMALL["EXO"], "LEV": SMALL["LEV"]})
    for places in itertools.chain.from_iterable(itertools.product((None, ".", "a", "b/c"), (None, "a2", "zz"), repeat=1) for _ in (1,)):
        for other in ((), ("x.txt",), ("sub/",), ("sub/y.txt",), ("BibleInfo.pickle",)):
            key = f"projects in {places} with {other}"
            with ctx.case(key):
                d = ctx.scratch("f")
                for p, X in zip(places, (B, C)):
                    if p: (d / p).mkdir(parents=True, exist_ok=True); X.toPickledBible(d / p)
                for o in other:
                    if o[-1] == "/": (d / o).mkdir()
                    else: (d / o).parent.mkdir(exist_ok=True); (d / o).exists() or (d / o).write_text("x")
                near = [X for p, X in zip(places, (B, C)) if p == "."]
                below = [X for p, X in zip(places, (B, C)) if p and p != "." and "/" not in p]
                hits = near or below
                ctx.step(); ctx.state(len(near), len(below))
                ctx.equal(P.PickledBibleFileCheck(d), len(hits) or None, key, "number of Bibles found")
                for auto, autobooks in ((True, False), (False, True), (True, True)):
                    r = P.PickledBibleFileCheck(d, autoLoad=auto, autoLoadBooks=autobooks)
                    if len(hits) == 1:
                        if not ctx.expect(isinstance(r, P.PickledBible), key, f"autoLoad {auto} {autobooks} gave {r!r}"): continue
                        ctx.equal((details(r), sorted(r.books)), (details(hits[0]), sorted(hits[0].books) if autobooks else []), key, "loaded Bible")
                        for c in hits[0].books: r.loadBookIfNecessary(c); ctx.expect(answers(r, c) == answers(hits[0], c), key, f"the answers for {c} differ")
                    else: ctx.equal(r, len(hits) or None, key, f"result of autoLoad {auto} {autobooks}")
    for way in ((True, False), (False, True), (True, True), (False, False)):
        with ctx.case(f"zip {way}"):
            d = ctx.scratch("f"); C.toPickledBible(d, None, 1, True)
            r = P.PickledBibleFileCheck(archive(d), autoLoad=way[0], autoLoadBooks=way[1])
            if way == (False, False): ctx.equal(r, 1, f"zip {way}", "number found")
            else: ctx.equal((details(r), sorted(r.books)), (details(C), sorted(C.books) if way[1] else []), f"zip {way}", "loaded Bible")

def describe(ctx):
    """Names and descriptions given at saving come back, for every combination of them"""
    from BibleOrgSys.Formats import PickledBible as P
    for name, abbr, given, short, version in itertools.product((None, "Näme: of/Bible"), (None, "AB.b"), (None, "given"), (None, "short"), (None, "2.0")):
        for meta in (None, {}, {"aboutText": "about", "sourceURL": "http://x", "licenceText": "free"}, {"other": ["list", 1]}):
            for level in (1, 2, 3):
                key = f"name {name} abbreviation {abbr} given {given} short {short} version {version} metadata {meta} level {level}"
                with ctx.case(key):
                    B = make({"GEN": SMALL["GEN"], "JDE": SMALL["JDE"]})
                    B.name, B.abbreviation, B.givenName, B.shortName, B.version = name, abbr, given, short, version
                    B.projectName = None              # is only saved from level 2
                    if not (name or abbr or given or short): B.name = "needed"
                    d = ctx.scratch("d")
                    ctx.step(); ctx.state(tuple(details(B)))
                    if not ctx.expect(B.toPickledBible(d, meta, level) is True, key, "saving did not report success"): continue
                    z = archive(d)
                    if not ctx.expect(z, key, "no zip file"): continue
                    with zipfile.ZipFile(z) as f: ctx.equal({n: f.read(n) for n in f.namelist()}, {n: (d / n).read_bytes() for n in ("GEN.pickle", "JDE.pickle", "BibleInfo.pickle", "BibleVersion.pickle")}, key, "files in the zip file")
                    for where in (d, z):
                        q = P.PickledBible(where)
                        data = dict(q.pickleVersionData)
                        ctx.equal((data["workName"], data["bookList"], data["DataLevel"]), (B.getAName(), ["GEN", "JDE"], level), key, "version details")
                        for k, v in (meta or {}).items(): ctx.equal(data.get(k), v, key, k)
                        q.preload()
                        ctx.equal(details(q), details(B), key, "names")
                        text = str(q)
                        for v in (meta or {}).values():
                            if isinstance(v, str): ctx.expect(v in text, key, lambda: f"{v!r} is not in the description {text!r}")
                    r = P.getZippedPickledBiblesDetails(str(d))
                    ctx.equal([(x["zipFilename"], x["bookList"], x["workName"]) for x in r], [(z.name, ["GEN", "JDE"], B.getAName())], key, "list of details")
                    if abbr:
                        r = P.getZippedPickledBiblesDetails(str(d), extended=True)
                        ctx.equal([(x["abbreviation"], x["name"]) for x in r], [(B.abbreviation, B.name)], key, "list of extended details")

def saves(ctx, a, b):
    """Saving in any form, exporting and asking, in any order: always the same results"""
    from BibleOrgSys.Formats import PickledBible as P
    def text(folder): return {str(p.relative_to(folder)): p.read_bytes() for p in sorted(folder.rglob("*.txt")) + sorted(folder.rglob("*.usfm"))}
    exported = {}
    for op in "TU":
        d = ctx.scratch("e"); make(SMALL).toText(d) if op == "T" else make(SMALL).toUSFM3(d)
        exported[op] = text(d)
    reference = make(SMALL); want = {c: answers(reference, c) for c in SMALL}
    def same(X, key, what): return all([ctx.expect(answers(X, c) == want[c], key, f"the answers for {c} of the {what} differ") for c in SMALL]) and ctx.equal(sorted(X.books), sorted(SMALL), key, f"books of the {what}")
    for k in range(0, 2 if ctx.quick else 3):
        for ops in itertools.product(SAVES, repeat=k):
            ops = (a, b) + ops
            key = " ".join(ops)
            with ctx.case(key):
                B = make(SMALL)
                for op in ops:
                    ctx.step()
                    d = ctx.scratch("s")
                    if op == "O":
                        ctx.expect(B.toPickleObject(d), key, "pickling failed")
                        q = G.unpickleObject("TST.pickle", d); same(q, key, "unpickled object"); ctx.equal(details(q), details(B), key, "names")
                        with zipfile.ZipFile(d / "TST.pickle.zip") as z: ctx.equal({n: z.read(n) for n in z.namelist()}, {"TST.pickle": (d / "TST.pickle").read_bytes()}, key, "zip file")
                        e = ctx.scratch("e"); q.toUSFM3(e); ctx.expect(text(e) == exported["U"], key, "the unpickled object is exported differently")
                    elif op in "123":
                        ctx.expect(B.toPickledBible(d, None, int(op)) is True, key, f"saving as level {op} failed")
                        q = P.PickledBible(d); q.load(); same(q, key, f"Bible of level {op}")
                        e = ctx.scratch("e"); q.toText(e); ctx.expect(text(e) == exported["T"], key, f"the Bible of level {op} is exported differently")
                    elif op == "T": B.toText(d); ctx.expect(text(d) == exported["T"], key, "the text export differs")
                    elif op == "U": B.toUSFM3(d); ctx.expect(text(d) == exported["U"], key, "the USFM export differs")
                    elif op == "D": B.discover()
                    same(B, key, f"original after {op}")
                ctx.state(key)
            if ctx.full: return

def again(ctx):
    """Saving another Bible into the same folder: it has the books of the last one only"""
    from BibleOrgSys.Formats import PickledBible as P
    subsets = [s for k in range(1, 4) for s in itertools.combinations(("GEN", "EXO", "LEV"), k)]
    for a, b in itertools.product(subsets, repeat=2):
        for la, lb, zipped in itertools.product((1, 2, 3), (1, 2, 3), (False, True)):
            key = f"{' '.join(a)} level {la}, then {' '.join(b)} level {lb} {'zip' if zipped else 'folder'}"
            with ctx.case(key):
                d = ctx.scratch("g")
                A = make({c: [("id", c), ("c", "1"), ("p", ""), ("v", "1 old")] for c in a}); A.toPickledBible(d, None, la)
                B = make({c: SMALL[c] for c in b}); B.toPickledBible(d, None, lb)
                ctx.step(2); ctx.state(a, b)
                for way in ("all", "lazy"):
                    q = load(archive(d) if zipped else d, way, None, b)
                    for c in ("GEN", "EXO", "LEV"):
                        if c in b: ctx.expect(c in q.books and answers(q, c) == answers(B, c), key, f"the answers for {c} differ")
                        else: ctx.equal(q.getContextVerseData((c, "1", "1")), None, key, f"answer for {c}")

def run(ctx, shard):
    if shard[0] == "history": return histories(ctx, *shard[1:])
    if shard[0] == "folders": return folders(ctx)
    if shard[0] == "details": return describe(ctx)
    if shard[0] == "saves": return saves(ctx, *shard[1:])
    if shard[0] == "again": return again(ctx)
    if shard[0] == "doc": docs = (U.raw(h, t) for h, t in U.expand(shard[1:], "quick"))
    else: docs = inline(*shard[1:])
    for batch in U02.batches(docs, len(U02.CODES)):
        books = dict(zip(U02.CODES, batch))
        content(ctx, books, f"{len(books)} books from {U.show(batch[0])}")
        if ctx.full: return

def inline(line, i):
    for k in range(0, 2):
        for rest in itertools.product([x for x in L01.ITEMS if x[0] != "str"], repeat=k):
            src = " ".join(x[1] for x in (L01.ITEMS[i],) + rest)
            yield [("id", "GEN")] + {"v": [("c", "1"), ("p", ""), ("v", "1 " + src), ("v", "2 end")], "c": [("c", "1 " + src), ("p", ""), ("v", "1 end")],
                "mt1": [("h", "Gen"), ("mt1", src), ("c", "1"), ("p", ""), ("v", "1 end")], "ip": [("ip", src), ("c", "1"), ("p", ""), ("v", "1 end")]}.get(line, [("c", "1"), (line, src), ("p", ""), ("v", "1 end")])
