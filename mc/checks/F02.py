"""F02: the files of a USFM or USX folder are assigned to their books: bounded folders under every naming scheme, in every listing order."""
import itertools, os
import lib
from checks import tables

PROP = dict(
    title="Every file of a USFM or USX folder is assigned to the right book",
    statement="In a folder whose files follow one of the supported naming schemes (Paratext names with digits, book code and language in any of their orders, names with just the book code, Bibledit's and OEB's English names, USX names, or names that say nothing with the code on the \\id line), "
              "USFMFilenames and USXFilenames give exactly the books which are there, each with its own file, in the order of the books and whatever the order in which the system lists the files. "
              "Backup copies, other kinds of files and subfolders are never taken for books and are told as unused; a strict check leaves out exactly the files whose contents are not (that book's) Scripture text; the project file (.ssf) of a folder is found beside it or, when asked for, above it. Loading the folder as a Bible gives each book the text of its own file.",
    over=["inputs", "configurations", "schedules"],
    qtext="every book alone, all pairs and triples of some books and whole Bibles, under every naming scheme, with every kind of other file beside them and in every order in which the operating system may list the files",
    why="The tests have a few fixed folders, in the one order in which that file system happens to list them; the schemes, books, cases and other files multiply to thousands of folders.",
    files=["BibleOrgSys/InputOutput/USFMFilenames.py", "BibleOrgSys/InputOutput/USXFilenames.py", "BibleOrgSys/Formats/USFMBible.py", "BibleOrgSys/Formats/USXXMLBible.py"],
    mechanism=[("getMaximumPossibleFilenameTuples, getConfirmedFilenameTuples, getUnusedFilenames, getSSFFilenames", "USFMFilenames, USXFilenames"), ("preload", "USFMBible, USXXMLBible")],
)
BOUNDS = ("32 USFM and 6 USX naming schemes; every single book, all pairs of 12 books (quick: 8) and all triples of 9 (quick: 5; with codes inside others, digits and letters as numbers), the OT, NT and all books; all listing orders of folders of up to 5 files; "
          "10 kinds of other files; two schemes in one folder; duplicates; 11 kinds of contents for the strict checks; project files beside, above and both; folders of the schemes loaded as Bibles")
ASSUMPTIONS = ["BibleBooksCodes.xml is the specification of the codes and numbers", "names whose language or other parts contain another book's code are outside the claim, as are three files for one book"]

NAMES66 = ("Genesis Exodus Leviticus Numbers Deuteronomy Joshua Judges Ruth 1_Samuel 2_Samuel 1_Kings 2_Kings 1_Chronicles 2_Chronicles Ezra Nehemiah Esther Job Psalms Proverbs Ecclesiastes Song_of_Solomon Isaiah Jeremiah Lamentations Ezekiel Daniel "
           "Hosea Joel Amos Obadiah Jonah Micah Nahum Habakkuk Zephaniah Haggai Zechariah Malachi Matthew Mark Luke John Acts Romans 1_Corinthians 2_Corinthians Galatians Ephesians Philippians Colossians 1_Thessalonians 2_Thessalonians "
           "1_Timothy 2_Timothy Titus Philemon Hebrews James 1_Peter 2_Peter 1_John 2_John 3_John Jude Revelation").split()

class Book:
    def __init__(self, BBB, x):
        self.BBB, self.code, self.num, self.usx, self.ref, self.seq = BBB, x["USFMAbbreviation"], x["USFMNumber"], x.get("USXNumber"), int(x["referenceNumber"]), int(x["sequenceNumber"])
        self.U, self.l = self.code.upper(), self.code.lower()
        self.name = NAMES66[self.ref - 1] if 1 <= self.ref <= 66 else None
        self.two = f"{self.ref:02d}"

# name -> (function of a book, whether the template of the names can be worked out)
USFM = {
    "ddBBBLNG": (lambda b: f"{b.num}{b.U}ENG.usfm", True), "ddBBBlng": (lambda b: f"{b.num}{b.U}eng.usfm", True), "ddBbblng": (lambda b: f"{b.num}{b.code}eng.usfm", True), "ddBBBlanguage SFM": (lambda b: f"{b.num}{b.U}zzzYYYx.SFM", True),
    "ddBBBLNG sfm": (lambda b: f"{b.num}{b.U}MBTV.sfm", True), "ddBBBlng txt": (lambda b: f"{b.num}{b.U}eng.txt", True), "ddBBBll-LL": (lambda b: f"{b.num}{b.U}yy-YY.usfm", True), "lngddBBB": (lambda b: f"eng{b.num}{b.U}.usfm", True), "LNGddBBB": (lambda b: f"ENG{b.num}{b.U}.usfm", True), "lngddBbb": (lambda b: f"mbt{b.num}{b.code}.SFM", True),
    "ddBbbLNG": (lambda b: f"{b.num}{b.code}ENG.usfm", True), "LNGddBbb": (lambda b: f"ENG{b.num}{b.code}.sfm", True), "AA-dd-BBB": (lambda b: f"AA-{b.num}-{b.U}.usfm", None), "dd BBB.xyz": (lambda b: f"{b.num} {b.U}.yyy.usfm", None),
    "dd-BBB": (lambda b: f"{b.num}-{b.U}.usfm", True), "BBB_dd": (lambda b: f"{b.U}_{b.num}.usfm", True), "dd.Bbb": (lambda b: f"{b.num}.{b.code}.txt", True), "ddBBB": (lambda b: f"{b.num}{b.U}.usfm", True), "BBBdd": (lambda b: f"{b.U}{b.num}.sfm", True), "ddbbblng": (lambda b: f"{b.num}{b.l}eng.usfm", None),
    "BBB": (lambda b: f"{b.U}.usfm", None), "bbb": (lambda b: f"{b.l}.usfm", None), "Bbb": (lambda b: f"{b.code}.txt", None), "xyz_BBB": (lambda b: f"xyz_{b.U}.usfm", None), "BBB.xyz": (lambda b: f"{b.U}.yyy.usfm", None), "BBB (no ext)": (lambda b: f"{b.U}", None),
    "Bibledit": (lambda b: f"{b.ref}_{b.name}.usfm" if b.name else None, True),
    "OEB": (lambda b: f"{b.two}-{b.name.replace('_', ' ') if b.name != 'Song_of_Solomon' else 'Song-of-Solomon'}.usfm" if b.name else None, True),
    "seq": (lambda b: f"{b.seq:04d}.usfm", None), "letters": (lambda b: "zz" + "q".join(chr(97 + b.seq // n % 26) for n in (1, 26, 676)) + "zz.txt", None),
    "number": (lambda b: f"{b.num}.usfm", None), "dd-name": (lambda b: f"{b.num}-qqqqqq.usfm", None),
}
def usxhyphen(b):
    if not b.usx.isdigit(): return None
    n = int(b.usx)
    return f"{n + (n > 39):02d}" if n + (n > 39) < 100 else None
USX = {
    "dddBBB": lambda b: f"{b.usx}{b.U}.usx", "dddBBB USX": lambda b: f"{b.usx}{b.U}.USX", "dddBbb": lambda b: f"{b.usx}{b.code}.usx", "BBB": lambda b: f"{b.U}.usx", "bbb": lambda b: f"{b.l}.usx",
    "dd-BBB": lambda b: f"{usxhyphen(b)}-{b.U}.usx" if usxhyphen(b) else None,
}
OTHERS = {"nothing": {}, "readme": {"README.txt": "x\n"}, "word lists": {"AutoCorrect.txt": "a\n", "HyphenatedWords.txt": "b\n", "PrintDraftChanges.txt": "c\n", "book_names.txt": "d\n"}, "backup": {"{}~": "same", "{}.bak": "same", "{}.BAK2": "same", "{}.sav": "same"}, "archive": {"{}.zip": "same", "x.zip.go": "z", "x.zip.data": "z"},
          "styles": {"usfm-color.sty": "\\Marker id\n", "x.css": "p {}\n", "x.html": "<p>\n", "x.doc": "d\n", "x.log": "l\n"}, "folders": {"{}.d/": "", "qqq.usfm/": ""}, "other text": {"zzz.qqq": "Some words\n", "zzz2": "\\p text\n", "qqqq.txt": "\n\n\n\\id GEN\n"}, "bytes": {"zzz.qq": bytes(range(256))}, "empty": {"zzz.qq": "", "zz9.usfm": ""}}

def setup(tier):
    global G, BOOKS, XBOOKS, UF, XF, USFMBible, USXXMLBible, real
    G = lib.bos()
    X = tables.book_codes()
    from collections import Counter
    n = Counter(x.get("USFMAbbreviation") for x in X.values())
    BOOKS = {BBB: Book(BBB, x) for BBB, x in X.items() if x.get("USFMAbbreviation") and n[x["USFMAbbreviation"]] == 1 and len(x["USFMAbbreviation"]) == 3 and x.get("USFMNumber") and len(x["USFMNumber"]) == 2}
    n = Counter(b.num for b in BOOKS.values()); m = Counter(b.usx for b in BOOKS.values())
    BOOKS = {k: b for k, b in BOOKS.items() if n[b.num] == 1}
    XBOOKS = {k: b for k, b in BOOKS.items() if b.usx and len(b.usx) == 3 and m[b.usx] == 1}
    assert len(BOOKS) > 90 and len(XBOOKS) > 85, (len(BOOKS), len(XBOOKS))
    from BibleOrgSys.InputOutput.USFMFilenames import USFMFilenames as UF
    from BibleOrgSys.InputOutput.USXFilenames import USXFilenames as XF
    from BibleOrgSys.Formats.USFMBible import USFMBible
    from BibleOrgSys.Formats.USXXMLBible import USXXMLBible
    real = os.listdir

class listed:
    """The operating system lists the files of this folder in the given order (a permutation of what is there)"""
    def __init__(self, folder, order): self.folder, self.order = str(folder).rstrip("/"), order
    def __enter__(self):
        def listdir(path="."):
            names = real(path)
            if os.path.normpath(str(path)) != self.folder: return names
            return sorted(names, key=lambda n: (self.order.index(n) if n in self.order else len(self.order), n))
        os.listdir = listdir
    def __exit__(self, *a): os.listdir = real

def usfm(b, c=1): return f"\\id {b.U} - test of {b.BBB}\n\\usfm 3.0\n\\h Title\n\\c {c}\n\\p\n\\v 1 Text of {b.BBB}\n"
def usx(b, c=1): return f'<?xml version="1.0" encoding="utf-8"?>\n<usx version="2.0">\n<book code="{b.U}" style="id">test</book>\n<chapter number="{c}" style="c" />\n<para style="p">\n<verse number="1" style="v" />Text of {b.BBB}</para>\n</usx>\n'

def write(folder, files):
    for name, text in files.items():
        f = folder / name
        if name.endswith("/"): f.mkdir(); continue
        if isinstance(text, bytes): f.write_bytes(text)
        else: f.write_text(text, encoding="utf-8")

def others(kind, first):
    out = {}
    for name, text in OTHERS[kind].items(): out[name.format(first[0]) if "{}" in name else name] = first[1] if text == "same" else text
    return out

def pairs(books, files): return [(b.BBB, files[b.BBB]) for b in sorted(books, key=lambda b: b.seq)]

def look(ctx, key, folder, names, want, template, unused):
    """What USFMFilenames tells of a folder"""
    with ctx.case(key):
        ctx.step(); ctx.state(key)
        u = UF(folder)
        ctx.equal(u.getUnusedFilenames(), None, key, "unused files before any search"); ctx.equal(len(u), 0, key, "length before any search")
        ctx.equal(u.getMaximumPossibleFilenameTuples(), want, key, "books and files")
        ctx.equal(len(u), len(want), key, "length"); ctx.equal(sorted(u.getUnusedFilenames()), unused, key, "unused files")
        ctx.equal(u.getPossibleFilenameTuplesInt(), want, key, "books and files by id lines"); ctx.equal(sorted(u.getUnusedFilenames()), unused, key, "unused files after the search by id lines")
        if template is not None:
            for strict in (False, True):
                ctx.equal(u.getConfirmedFilenameTuples(strictCheck=strict), want, key, f"confirmed books and files{' strictly' * strict}")
                ctx.equal(sorted(u.getUnusedFilenames()), unused, key, "unused files after the confirmation")
            derived = u.getDerivedFilenameTuples()
            if ctx.expect(set(want) <= set(derived) and len({d for _, d in derived}) == len(derived), key, lambda: f"derived names miss {sorted(set(want) - set(derived))} or repeat"):
                seqs = [SEQ[b] for b, _ in derived]
                ctx.expect(seqs == sorted(seqs), key, "derived names are not in the order of the books")
            ctx.equal({len(u.getFilenameTemplate()) - (len(d.rsplit(".", 1)[0]) if template not in ("Bibledit", "OEB") else len(u.getFilenameTemplate())) for _, d in want}, {0}, key, "length of the template")
        else: ctx.expect(set(u.getConfirmedFilenameTuples()) <= set(want), key, "confirmed other books")
        ctx.equal(u.getMaximumPossibleFilenameTuples(strictCheck=True), want, key, "books and files strictly")
        ctx.equal(len(u), len(want), key, "length after the strict search")
        ctx.equal(sorted(n for n in u.getAllFilenames() if n in dict((f, 1) for _, f in want)), sorted(f for _, f in want), key, "files of books among all files")
        for n in u.getAllFilenames(): ctx.expect(not os.path.isdir(os.path.join(folder, n)) and not n.endswith(("~", ".bak", ".BAK2", ".zip")), key, f"{n} is among all filenames")

def folderOf(ctx, scheme, books, kind="nothing"):
    f, template = USFM[scheme]
    files = {b.BBB: f(b) for b in books}
    if None in files.values(): return None
    folder = ctx.scratch()
    content = {files[b.BBB]: usfm(b) for b in books}
    extra = others(kind, (files[books[0].BBB], usfm(books[0])))
    write(folder, content | extra)
    return folder, files, sorted(n.rstrip("/") for n in extra), template

def orders(names): return itertools.permutations(sorted(names)) if len(names) <= 5 else [tuple(sorted(names)), tuple(sorted(names, reverse=True))]

def usfmCase(ctx, scheme, books, kind="nothing", allOrders=True):
    r = folderOf(ctx, scheme, books, kind)
    if r is None: return
    folder, files, extra, template = r
    want = pairs(books, files)
    names = sorted(list(files.values()) + extra)
    base = f"{scheme} {','.join(sorted(files))} with {kind}"
    for order in (orders(names) if allOrders else [tuple(names)]):
        with listed(folder, order): look(ctx, f"{base} listed {' '.join(order[:8])}", folder, names, want, scheme if template else None, extra)
    ctx.sample(base)

SOME = ["GEN", "SA1", "SNG", "EZE", "MAT", "CO1", "JDE", "REV", "TOB", "MA4", "DNG", "OBA"]

def isets(tier, B):
    some = [B[b] for b in SOME if b in B]
    return list(itertools.combinations(some[:12 if tier else 8], 2)) + list(itertools.combinations(some[:9 if tier else 5], 3))

def singles(ctx, scheme):
    for b in BOOKS.values(): usfmCase(ctx, scheme, [b])
    whole = [[b for b in BOOKS.values() if b.ref <= 39], [b for b in BOOKS.values() if 40 <= b.ref <= 66], [b for b in BOOKS.values() if b.ref <= 66], list(BOOKS.values())]
    for w in whole: usfmCase(ctx, scheme, w)
    if USFM[scheme][1]: # What the template says of the other books
        for b in BOOKS.values():
            if b.code == b.U: continue # Its code alone doesn't tell the case of the others
            key = f"derived from {scheme} {b.BBB}"
            with ctx.case(key):
                r = folderOf(ctx, scheme, [b])
                if r is None: continue
                got = dict(UF(r[0]).getDerivedFilenameTuples())
                for c in BOOKS.values():
                    if USFM[scheme][0](c): ctx.equal(got.get(c.BBB), USFM[scheme][0](c), key, f"derived name of {c.BBB}")

def sets(ctx, scheme):
    for books in isets(not ctx.quick, BOOKS): usfmCase(ctx, scheme, books)
    for kind in OTHERS:
        for books in ([BOOKS["GEN"]], [BOOKS["MAT"], BOOKS["JDE"]]): usfmCase(ctx, scheme, books, kind)
    for scheme2 in USFM: # Two schemes in one folder: the id lines tell
        if scheme2 == scheme: continue
        for a, b in (("GEN", "EXO"), ("MRK", "GEN"), ("JN1", "JHN")):
            files = {a: USFM[scheme][0](BOOKS[a]), b: USFM[scheme2][0](BOOKS[b])}
            folder = ctx.scratch()
            write(folder, {files[x]: usfm(BOOKS[x]) for x in files})
            for order in orders(files.values()):
                key = f"mixed {scheme}+{scheme2} {a},{b} listed {' '.join(order)}"
                with ctx.case(key), listed(folder, order):
                    ctx.step(); ctx.state(key)
                    u = UF(folder)
                    want = pairs([BOOKS[a], BOOKS[b]], files)
                    ctx.equal(u.getMaximumPossibleFilenameTuples(), want, key, "books and files"); ctx.equal(u.getUnusedFilenames(), [], key, "unused files")
    for other in ("zzqq.usfm", "qqzz.txt"): # Two files for one book by their id lines: neither is taken, the others are
        folder = ctx.scratch()
        a, b = BOOKS["GEN"], BOOKS["MAT"]
        files = {x.BBB: USFM[scheme][0](x) for x in (a, b)}
        write(folder, {files["GEN"]: usfm(a), files["MAT"]: usfm(b), other: usfm(a)})
        for order in orders(list(files.values()) + [other]):
            key = f"duplicate {scheme} {other} listed {' '.join(order)}"
            with ctx.case(key), listed(folder, order):
                ctx.step(); ctx.state(key)
                u = UF(folder)
                ctx.equal(u.getPossibleFilenameTuplesInt(), [("MAT", files["MAT"])], key, "books and files by id lines"); ctx.equal(sorted(u.getUnusedFilenames()), sorted([files["GEN"], other]), key, "unused files")

# Contents: name -> (bytes for a book, book told by its id line or None, whether a strict search for Bible files keeps it)
def contents(b, o):
    t = usfm(b)
    return {"right": (t, b.BBB, True), "bom": ("\ufeff" + t, None, True), "no id": (t.split("\n", 1)[1], None, True), "other book": (usfm(o), o.BBB, True), "blank first": ("\n" + t, b.BBB, False), "text first": ("Words\n" + t, b.BBB, False), "late id": ("\n\n" + t, None, False),
            "lower": (t.replace("\\id " + b.U, "\\id " + b.l), b.BBB, True), "unknown": (t.replace("\\id " + b.U, "\\id QQQ"), None, True), "latin": (b"\\id " + b.U.encode() + b" caf\xe9\n", None, True), "empty": ("", None, False), "id only": (f"\\id {b.U}", b.BBB, True), "id long": (t.replace(" - test", "-test"), b.BBB, True)}

def strict(ctx, scheme):
    f, template = USFM[scheme]
    for B, O in (("GEN", "EXO"), ("MAT", "MRK"), ("JN1", "JHN"), ("JDG", "JDE")):
        b, o, third = BOOKS[B], BOOKS[O], BOOKS["PSA"]
        for n1, (t1, id1, keep1) in contents(b, third).items():
            for n2, (t2, id2, keep2) in contents(o, BOOKS["PRO"]).items():
                if ctx.quick and n1 != "right" and n2 != "right" and n1 != n2: continue
                key = f"strict {scheme} {B} {n1}, {O} {n2}"
                folder = ctx.scratch()
                write(folder, {f(b): t1, f(o): t2})
                with ctx.case(key):
                    ctx.step(); ctx.state(key)
                    u = UF(folder)
                    byId = sorted([(BBB, n) for BBB, n in ((id1, f(b)), (id2, f(o))) if BBB], key=lambda p: SEQ[p[0]])
                    ctx.equal(u.getPossibleFilenameTuplesInt(), byId, key, "books and files by id lines")
                    if template:
                        ctx.equal(u.getConfirmedFilenameTuples(), pairs([b, o], {B: f(b), O: f(o)}), key, "confirmed")
                        ctx.equal(u.getConfirmedFilenameTuples(strictCheck=True), [(BBB, n) for BBB, n, i in sorted([(B, f(b), id1), (O, f(o), id2)], key=lambda p: SEQ[p[0]]) if i == BBB], key, "confirmed strictly")
                        ctx.equal(u.getMaximumPossibleFilenameTuples(strictCheck=True), [(BBB, n) for BBB, n, k in sorted([(B, f(b), keep1), (O, f(o), keep2)], key=lambda p: SEQ[p[0]]) if k], key, "books and files strictly")

def ssf(ctx):
    for here in itertools.product(("", "My.ssf", "OTHER.SSF", "My.ssf~", "My.xml"), repeat=2):
        for above in itertools.product(("", "My.ssf", "Zed.SSF", "Project.ssf", "My.ssf~", "Proj.txt"), repeat=2):
            if here[0] > here[1] or above[0] > above[1] or here[0] == here[1] != "" or above[0] == above[1] != "": continue
            top = ctx.scratch()
            folder = top / "Project"; folder.mkdir()
            for n in here:
                if n: (folder / n).write_text("<x/>\n")
            for n in above:
                if n: (top / n).write_text("<x/>\n")
            (folder / "01GENeng.usfm").write_text(usfm(BOOKS["GEN"]))
            key = f"ssf {here} above {above}"
            is_ = lambda n: n.lower().endswith(".ssf")
            near, far = sorted(n for n in here if is_(n)), sorted(n for n in above if is_(n))
            with ctx.case(key):
                ctx.step(); ctx.state(key)
                for how in (folder, str(folder), str(folder) + "/"):
                    u = UF(how)
                    rel = lambda l: sorted(os.path.relpath(p, top) for p in l)
                    ctx.equal(rel(u.getSSFFilenames()), ["Project/" + n for n in near], key, "project files beside")
                    for auto in (True, False):
                        match = [n for n in far if n == "Project.ssf"]
                        want = ["Project/" + n for n in near] if near else match if auto and len(far) > 1 and match else far
                        ctx.equal(rel(u.getSSFFilenames(searchAbove=True, auto=auto)), want, key, f"project files searched above, auto={auto}")
                    ctx.equal(u.getMaximumPossibleFilenameTuples(), [("GEN", "01GENeng.usfm")], key, "books and files")

def load(ctx, scheme, cls):
    usxs = cls == "USX"
    B = XBOOKS if usxs else BOOKS
    f = USX[scheme] if usxs else USFM[scheme][0]
    for books in [[b] for b in B.values()] + isets(not ctx.quick, B) + [list(B.values())]:
        if usxs and scheme == "dddBbb" and len(books) > 1: books = [b for b in books if b.code != b.U] # S3Y, XXA, … don't tell the case of the others
        files = {b.BBB: f(b) for b in books}
        if None in files.values(): continue
        folder = ctx.scratch()
        write(folder, {files[b.BBB]: (usx if usxs else usfm)(b) for b in books})
        key = f"load {cls} {scheme} {','.join(sorted(files)) if len(files) < 9 else len(files)}"
        with ctx.case(key), listed(folder, sorted(files.values(), reverse=len(books) % 2)):
            ctx.step(); ctx.state(key)
            bible = (USXXMLBible if usxs else USFMBible)(str(folder))
            bible.preload()
            ctx.equal(bible.availableBBBs, set(files), key, "available books")
            bible.loadBooks()
            ctx.equal(sorted(bible.books), sorted(files), key, "loaded books")
            for BBB in bible.books:
                texts = [e.getCleanText() for e in bible.books[BBB]._processedLines]
                ctx.equal([t for t in texts if t and t.startswith("Text of")], [f"Text of {BBB}"], key, f"text of {BBB}")

def usxs(ctx, scheme):
    f = USX[scheme]
    def case(books, kind="nothing", all_=True):
        files = {b.BBB: f(b) for b in books}
        if None in files.values(): return
        folder = ctx.scratch()
        extra = {n: t for n, t in others(kind, (files[books[0].BBB], usx(books[0]))).items()}
        write(folder, {files[b.BBB]: usx(b) for b in books} | extra)
        extra = sorted(n.rstrip("/") for n in extra)
        names = sorted(list(files.values()) + extra)
        want = pairs(books, files)
        for order in orders(names):
            key = f"USX {scheme} {','.join(sorted(files))} with {kind} listed {' '.join(order[:8])}"
            with ctx.case(key), listed(folder, order):
                ctx.step(); ctx.state(key)
                u = XF(folder)
                for strict in (False, True): ctx.equal(u.getConfirmedFilenameTuples(strictCheck=strict), want, key, f"books and files{' strictly' * strict}")
                ctx.equal(sorted(u.getUnusedFilenames()), extra, key, "unused files")
                if kind == "nothing" and scheme in ("dddBBB", "BBB") and not all(b.ref > 66 for b in books) and len(books) < 4: ctx.equal(u.getPossibleFilenameTuples(), want, key, "possible books and files")
                derived = u.getDerivedFilenameTuples()
                if ctx.expect(set(want) <= set(derived), key, lambda: f"derived names miss {sorted(set(want) - set(derived))}"):
                    seqs = [SEQ[b] for b, _ in derived]
                    ctx.expect(seqs == sorted(seqs), key, "derived names are not in the order of the books")
                if any(b.code != b.U for b in books): ctx.equal(u.getFilenameTemplate(), scheme.split()[0] if scheme != "dddBbb" else "dddbbb", key, "template")
    B = XBOOKS
    for b in B.values(): case([b])
    for books in isets(not ctx.quick, B): case(list(books))
    for lo, hi in ((1, 39), (40, 66), (1, 66), (1, 999)): case([b for b in B.values() if lo <= b.ref <= hi and f(b) and (scheme != "dddBbb" or b.code != b.U)])
    for kind in OTHERS:
        for books in ([B["GEN"]], [B["MAT"], B["JDE"]]): case(books, kind)
    for b, o in ((B["GEN"], B["EXO"]), (B["JN1"], B["JHN"])): # Strict checks of the contents
        t = usx(b)
        h, rest = t.split("\n", 1)
        kinds = {"bom": ("\ufeff" + t, True), "quotes": (t.replace(h, h.replace('"', "'")), True), "no header": (rest, True), "one line": (t.replace("?>\n", "?>"), True), "other xml": (t.replace("usx", "usz"), False), "text": ("some\nother\ntext\nfile\n", False), "short": (h + "\n", False), "empty": ("", False), "latin": (b"<?xml version='1.0'?>\n<usx>\n<a>caf\xe9</a>\n", True), "late": (h + "\n<!-- x -->\n" + rest, False)}
        for n, (text, ok) in kinds.items():
            folder = ctx.scratch()
            write(folder, {f(b): text, f(o): usx(o)})
            key = f"USX strict {scheme} {b.BBB} {n}"
            with ctx.case(key):
                ctx.step(); ctx.state(key)
                u = XF(folder)
                ctx.equal(u.getConfirmedFilenameTuples(), pairs([b, o], {b.BBB: f(b), o.BBB: f(o)}), key, "books and files")
                ctx.equal(u.getConfirmedFilenameTuples(strictCheck=True), pairs([b, o] if ok else [o], {b.BBB: f(b), o.BBB: f(o)}), key, "books and files strictly")

def shards(tier):
    return [(k, s) for s in USFM for k in ("singles", "sets", "strict", "load")] + [("usx", s) for s in USX] + [("loadx", s) for s in USX] + [("ssf", "")]

def run(ctx, shard):
    global SEQ
    SEQ = {BBB: int(x["sequenceNumber"]) for BBB, x in tables.book_codes().items()}
    k, s = shard
    if k == "singles": singles(ctx, s)
    elif k == "sets": sets(ctx, s)
    elif k == "strict": strict(ctx, s)
    elif k == "load": load(ctx, s, "USFM")
    elif k == "usx": usxs(ctx, s)
    elif k == "loadx": load(ctx, s, "USX")
    else: ssf(ctx)
