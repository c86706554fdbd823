"""U08: what an export gives depends on the Bible only, not on what was exported or asked before (all pairs and short sequences of exports)."""
import copy, datetime, itertools, multiprocessing, os, re, sqlite3, tarfile, time, zipfile
from pathlib import Path
import lib
from checks import P01
from checks import U07

PROP = dict(
    title="What an export gives depends on the Bible only, not on what happened before",
    statement="Every export writes the same files with the same contents for the same Bible: whatever was exported, saved, looked up, discovered or checked before with the same Bible object or another one in the process, "
              "into a new, an empty or an already used folder, alone or as part of exporting to all formats (with one process or several), which reports exactly the exports that failed and still does the others. It writes into the given output folder only and leaves the Bible's texts, indexes, names and settings unchanged.",
    over=["histories", "configurations"],
    qtext="every sequence of two exports (partly three) out of 30 formats, with questions, discovery and checks, on the same Bible or two different ones, and each kind of output folder",
    why="The exporters share buffers, caches, control dictionaries and a reference system on the Bible object and in modules; the tests never export twice.",
    files=["BibleOrgSys/BibleWriter.py", "BibleOrgSys/Formats/theWordBible.py", "BibleOrgSys/Formats/MySwordBible.py", "BibleOrgSys/Formats/ESwordBible.py", "BibleOrgSys/Formats/MyBibleBible.py", "BibleOrgSys/Formats/EasyWorshipBible.py", "BibleOrgSys/Formats/OpenSongXMLBible.py", "BibleOrgSys/Formats/USXXMLBible.py"],
    mechanism=[("to…/doAllExports", "BibleOrgSys/BibleWriter.py"), ("create…", "BibleOrgSys/Formats/*Bible.py")],
)
BOUNDS = "30 kinds of exports and 4 other operations on a Bible of 4 books: all pairs on one Bible (thorough: all triples, with 19 of them in the middle), all pairs on two Bibles, each export into new, empty and used folders, and all exports together with every pair of failing ones"
ASSUMPTIONS = ["dates, times and the time stamps inside archives are not compared", "several processes are modelled by a pool that runs its work in turn on copies"]

EXPORTS = ["PickleObject", "PickledBible", "BOSBCV", "PseudoUSFM", "USFM2", "USFM3", "ESFM", "Text", "VPL", "Markdown", "HTML5", "BibleDoor", "EasyWorshipBible", "USX2XML", "USXXML", "USFXXML", "OSISXML", "ZefaniaXML", "HaggaiXML",
           "OpenSongXML", "SwordModule", "theWord", "MySword", "ESword", "MyBible", "SwordSearcher", "DrupalBible", "TeX", "Lists", "USFM3b"]
OTHER = ["discover", "check", "ask", "find"]
ALL = EXPORTS + OTHER
FOLDERS = {"PickleObject": "BOS_Bible_Object_Pickle", "PickledBible": "BOS_PickledBible_Export", "Lists": "BOS_Lists", "BOSBCV": "BOS_BCV_Export", "PseudoUSFM": "BOS_PseudoUSFM_Export", "USFM2": "BOS_USFM2_Export", "USFM3": "BOS_USFM3_Reexport",
           "ESFM": "BOS_ESFM_Export", "Text": "BOS_PlainText_Export", "VPL": "BOS_VersePerLine_Export", "Markdown": "BOS_Markdown_Export", "HTML5": "BOS_HTML5_Export", "BibleDoor": "BOS_BibleDoor_Export", "EasyWorshipBible": "BOS_EasyWorshipBible_Export",
           "USX2XML": "BOS_USX2_Export", "USXXML": "BOS_USX3_Export", "USFXXML": "BOS_USFX_Export", "OSISXML": "BOS_OSIS_Export", "ZefaniaXML": "BOS_Zefania_Export", "HaggaiXML": "BOS_Haggai_Export", "OpenSongXML": "BOS_OpenSong_Export",
           "SwordModule": "BOS_Sword_Export", "theWord": "BOS_theWord_Export", "MySword": "BOS_MySword_Export", "ESword": "BOS_e-Sword_Export", "MyBible": "BOS_MyBible_Export", "SwordSearcher": "BOS_SwordSearcher_Export", "DrupalBible": "BOS_DrupalBible_Export",
           "TeX": "BOS_TeX_Export", "PhotoBible": "BOS_PhotoBible_Export", "ODF": "BOS_ODF_Export"}
NAMES = {"PickleObject": "Pickle", "PickledBible": None, "Lists": "listOutput", "BOSBCV": "BCVOutput", "PseudoUSFM": "pseudoUSFMExport", "Text": "textExport", "Markdown": "markdownExport", "HTML5": "htmlExport", "USX2XML": "USX2Export", "USXXML": "USX3Export",
         "ZefaniaXML": "ZefExport", "HaggaiXML": "HagExport", "OpenSongXML": "OSExport", "SwordModule": "swExport", "theWord": "tWExport", "MySword": "MySwExport", "ESword": "ESwExport", "MyBible": "MyBExport", "SwordSearcher": "SwSExport", "DrupalBible": "DrExport"}
OPTIONAL = ["PhotoBible", "ODF", "TeX"]
FEW = ["PickledBible", "BOSBCV", "USFM3", "ESFM", "VPL", "HTML5", "BibleDoor", "USXXML", "OSISXML", "ZefaniaXML", "OpenSongXML", "SwordModule", "MySword", "MyBible", "Lists", "PickleObject", "discover", "check", "ask"]
SECOND = {
    "GEN": [("id", "GEN y"), ("h", "Bereshit"), ("mt1", "Other title"), ("ip", "intro"), ("c", "1"), ("p", ""), ("v", "1 other\\x - \\xo 1:1 \\xt Exo 1:1; 2:2\\x* text"), ("q1", "poem"), ("v", "2 b\\f + \\ft n\\f*")],
    "MAT": [("id", "MAT"), ("h", "Matthew"), ("c", "1"), ("s1", "head"), ("p", ""), ("v", "1-2 mat"), ("v", "3 end")],
}

def setup(tier):
    P01.setup(tier)
    global G, BASE, START
    G = lib.bos()
    multiprocessing.Pool = Pool
    from BibleOrgSys import BibleWriter
    BibleWriter.killLibreOfficeServiceManager = lambda: None
    START = time.strftime("%Y-%m-%d"), time.strftime("%d-%b-%Y"), time.strftime("%d %b %Y"), time.strftime("%Y%m%d")
    BASE = {}

class Pool(U07.Pool):
    """A pool which gives its results at once, or (if late) never"""
    late = False
    def map_async(self, fn, it):
        self.results = None if self.late else self.map(fn, it)
        return self
    def wait(self, timeout): pass
    def ready(self): return not self.late
    def get(self): return self.results
    def terminate(self): pass

def shards(tier):
    return [("same", a) for a in ALL] + [("other", a) for a in EXPORTS] + [("folder", a) for a in EXPORTS] + [("all", n) for n in (1, 4)] + [("fault", n, a) for n in (1, 4, "late") for a in FOLDERS] + ([] if tier == "quick" else [("triple", a, b) for a in ALL for b in FEW])

def do(B, name, folder):
    if name == "discover": B.discover(); return True
    if name == "check": B.discover(); B.check(); return True
    if name == "ask":
        for c in B.books:
            P01.answers(B, c)
            B.getAssumedBookName(c)
        return True
    if name == "find":
        from BibleOrgSys.Internals.InternalBible import InternalBible
        B.findText({"work": None, "findText": "a", "contextLength": 20, "wordMode": "Any", "caselessFlag": True, "ignoreDiacriticsFlag": False, "includeIntroFlag": True, "includeMainTextFlag": True, "includeMarkerTextFlag": False, "includeExtrasFlag": True,
                    "includeSubheadingsFlag": True, "bookList": "ALL", "chapterList": None, "markerList": None, "optionsFlag": None, "regexFlag": False, "BookGroup": None})
        return True
    if name == "Lists": return B.makeLists(folder)
    if name == "theWord": return B.totheWord(folder)
    if name == "USFM3b": return B.toUSFM3(folder, removeVerseBridges=True)
    return getattr(B, "to" + name)(folder)

def plain(data):
    for x in START: data = data.replace(x.encode(), b"<date>")
    return re.sub(rb"\b\d\d?:\d\d:\d\d(\.\d+)?\b", b"<time>", data)

def contents(folder):
    """name -> comparable contents of each file"""
    res = {}
    for p in sorted(folder.rglob("*")):
        if not p.is_file(): continue
        n, data = str(p.relative_to(folder)), p.read_bytes()
        if n.endswith(".pickle"): res[n] = "pickle"
        elif zipfile.is_zipfile(p):
            with zipfile.ZipFile(p) as z: res[n] = {x: "pickle" if x.endswith(".pickle") else packed(z.read(x)) for x in z.namelist()}
        elif n.endswith((".bz2", ".gzip", ".gz")) and tarfile.is_tarfile(p):
            with tarfile.open(p) as t: res[n] = {m.name: plain(t.extractfile(m).read()) for m in t.getmembers() if m.isfile()}
        else: res[n] = packed(data)
    return res

def packed(data):
    if data[:15] == b"SQLite format 3":
        c = sqlite3.connect(":memory:"); c.deserialize(data)
        return plain("\n".join(c.iterdump()).encode())
    return plain(data)

def baseline(ctx, which, name):
    if (which, name) not in BASE:
        d = ctx.scratch("base") / "new"
        B = P01.make(P01.SMALL if which == "A" else SECOND)
        ok = do(B, name, d)
        ctx.expect(ok is not False, f"{name} alone", "the export did not report success")
        BASE[which, name] = contents(d)
        ctx.expect(name in OTHER or BASE[which, name], f"{name} alone", "no files were written")
    return BASE[which, name]

def compare(ctx, key, got, want):
    if got == want: return True
    a, b = set(got), set(want)
    if a != b: return ctx.violation(key, f"files {lib.short(sorted(a - b))} more and {lib.short(sorted(b - a))} fewer than when exported first")
    n = next(n for n in sorted(got) if got[n] != want[n])
    g, w = got[n], want[n]
    if isinstance(g, dict): m = next((x for x in {**g, **w} if g.get(x) != w.get(x)), "?"); n += f" ({m})"; g, w = g.get(m) or b"", w.get(m) or b""
    i = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
    return ctx.violation(key, f"{n} has {lib.short(g[max(0, i - 60):i + 120])} where the first export has {lib.short(w[max(0, i - 60):i + 120])}")

def state(B):
    return [list(B.books), P01.details(B), {k: repr(v) for k, v in B.settingsDict.items()}, repr(B.suppliedMetadata), {c: P01.answers(B, c) for c in B.books}, {c: [list(x) for x in B.books[c]._CVIndex.items()] and len(B.books[c]._CVIndex) for c in B.books}]

def sequence(ctx, ops):
    key = " then ".join(ops)
    with ctx.case(key, data=ops, seconds=60):
        B = P01.make(P01.SMALL)
        before = state(B)
        for i, name in enumerate(ops):
            ctx.step()
            root = ctx.scratch("o"); d = root / "new"
            os.chdir(ctx.scratch("cwd"))
            ok = do(B, name, d)
            ctx.expect(ok is not False, key, f"{name} did not report success", ops)
            ctx.equal(sorted(os.listdir(root)), ["new"] if name not in OTHER else [], key, "entries beside the output folder")
            ctx.equal(os.listdir("."), [], key, "entries in the working folder")
            if name not in OTHER and not compare(ctx, key, contents(d), baseline(ctx, "A", name)): return
        ctx.state(key)
        after = state(B)
        for x, y, what in zip(after, before, ("books", "names", "settings", "metadata", "answers", "index")): ctx.equal(x, y, key, f"{what} of the Bible afterwards", ops)

def fail(name, how):
    """An exporter that records its call and then succeeds or fails"""
    def stub(self, folder, *a, **kw):
        CALLS.append((name, str(folder).rstrip("/")))
        if how in ("OSError", "ValueError", "TypeError"): raise {"OSError": OSError, "ValueError": ValueError, "TypeError": TypeError}[how]("injected failure")
        return how
    stub.__name__ = stub.__qualname__ = method(name)
    return stub

def method(name): return "makeLists" if name == "Lists" else "to" + name

def faults(ctx, procs, a):
    """doAllExports reports exactly what failed, and goes on with the other exports (all pairs of failures)"""
    global CALLS
    from BibleOrgSys.BibleWriter import BibleWriter
    from BibleOrgSys.Bible import Bible
    originals = {n: getattr(BibleWriter, method(n)) for n in FOLDERS}
    assert all(method(n) not in Bible.__dict__ for n in FOLDERS)
    hows = (False, "OSError", "TypeError") if a == "PickleObject" else (False, "OSError", "ValueError")
    plans = [{a: h} for h in hows] + [{a: h, b: g} for b in FOLDERS if b > a for h in hows for g in (False, "OSError")]
    try:
        for plan, wanted in [(p, w) for p in plans for w in ((True, True, True), (False, False, False))] + [({a: hows[1]}, w) for w in itertools.product((True, False), repeat=3)]:
            key = f"{procs} processes, " + ", ".join(f"{n} {h}" for n, h in plan.items()) + f", wanted {[n for n, w in zip(OPTIONAL, wanted) if w]}"
            with ctx.case(key, seconds=60):
                CALLS = []
                for n in FOLDERS: setattr(BibleWriter, method(n), fail(n, plan.get(n, True)))
                B = Bible(); B.name = "Test"; B.objectTypeString = "USFM3"
                B.discoveryResults = {"ALL": {"chapterCount": 1}}; B.doneSetupGeneric = True
                B.projectName = "Test"
                G.maxProcesses, Pool.late = (4, True) if procs == "late" else (procs, False)
                root = ctx.scratch("o")
                try: res = B.doAllExports(str(root), wantPhotoBible=wanted[0], wantODFs=wanted[1], wantPDFs=wanted[2])
                finally: G.maxProcesses = 1; Pool.late = False; busy, G.alreadyMultiprocessing = G.alreadyMultiprocessing, False
                ctx.step(); ctx.state(key)
                want = {}
                for n in FOLDERS:
                    if NAMES.get(n, "") is None: continue
                    v = None if n in OPTIONAL and not wanted[OPTIONAL.index(n)] else plan.get(n, True) is True
                    if procs == "late" and v is not None and n not in ("PickleObject", "ODF"): v = True           # whether it failed isn't known
                    want[NAMES.get(n) or n.replace("XML", "") + "Export"] = v
                got = {k: v if v is None else bool(v) for k, v in res.items()}
                ctx.expect(got == want, key, lambda: "results " + ", ".join(f"{k} {got.get(k, '-')} not {want.get(k, '-')}" for k in {**got, **want} if got.get(k, "-") != want.get(k, "-")), plan)
                called = [(n, str(root / f)) for n, f in FOLDERS.items() if not (n in OPTIONAL and not wanted[OPTIONAL.index(n)]) and (procs != "late" or n in ("PickleObject", "ODF"))]
                ctx.equal(sorted(CALLS), sorted(called), key, "exports")
                ctx.equal(busy, False, key, "busy flag afterwards")
    finally:
        for n, f in originals.items(): setattr(BibleWriter, method(n), f)

def run(ctx, shard):
    kind, a = shard[:2]
    if kind == "same":
        sequence(ctx, (a,))
        for b in ALL: sequence(ctx, (a, b))
    elif kind == "triple":
        for c in ALL: sequence(ctx, (a, shard[2], c))
    elif kind == "other":
        for b in EXPORTS:                # first of one Bible, then of the other one, then of the first again
            key = f"{a} of another Bible then {b}"
            with ctx.case(key, seconds=60):
                A, B = P01.make(P01.SMALL), P01.make(SECOND)
                for X, which, name in ((A, "A", a), (B, "B", b), (A, "A", a)):
                    ctx.step(); d = ctx.scratch("o") / "new"
                    do(X, name, d)
                    compare(ctx, key, contents(d), baseline(ctx, which, name))
                ctx.state(key)
    elif kind == "folder":
        for first in ("none", "empty", "used", "string", "deep", "slash"):
            key = f"{a} into {first} folder"
            with ctx.case(key, seconds=60):
                root = ctx.scratch("o"); d = root / ("x/y/new" if first == "deep" else "new")
                if first in ("empty", "used"): d.mkdir()
                B = P01.make(P01.SMALL)
                if first == "used": do(B, a, d); B = P01.make(P01.SMALL)
                ctx.step()
                ok = do(B, a, str(d) if first == "string" else str(d) + "/" if first == "slash" else d)
                ctx.expect(ok is not False, key, "the export did not report success")
                compare(ctx, key, contents(d), baseline(ctx, "A", a))
                ctx.state(key)
    elif kind == "fault": faults(ctx, a, shard[2])
    else:
        with ctx.case(f"all exports, {a} processes", seconds=300):
            B = P01.make(P01.SMALL)
            root = ctx.scratch("o")
            G.maxProcesses = a
            try: res = B.doAllExports(str(root), wantPhotoBible=False, wantODFs=False, wantPDFs=True)
            finally: G.maxProcesses = 1; G.alreadyMultiprocessing = False
            folders = {n: f for n, f in FOLDERS.items() if n not in ("PhotoBible", "ODF")}
            ctx.equal(sorted(os.listdir(root)), ["new"] if name not in OTHER else [], key, "entries beside the output folder")
            ctx.equal(os.listdir("."), [], key, "entries in the working folder")
            if name not in OTHER and not compare(ctx, key, contents(d), baseline(ctx, "A", name)): return
        ctx.state(key)
        after = state(B)
        for x, y, what in zip(after, before, ("books", "names", "settings", "metadata", "answers", "index")): ctx.equal(x, y, key, f"{what} of the Bible afterwards", ops)

def fail(name, how):
    """An exporter that records its call and then succeeds or fails"""
    def stub(self, folder, *a, **kw):
        CALLS.append((name, str(folder).rstrip("/")))
        if how in ("OSError", "ValueError", "TypeError"): raise {"OSError": OSError, "ValueError": ValueError, "TypeError": TypeError}[how]("injected failure")
        return how
    stub.__name__ = stub.__qualname__ = method(name)
    return stub

def method(name): return "makeLists" if name == "Lists" else "to" + name

def faults(ctx, procs, a):
    """doAllExports reports exactly what failed, and goes on with the other exports (all pairs of failures)"""
    global CALLS
    from BibleOrgSys.BibleWriter import BibleWriter
    from BibleOrgSys.Bible import Bible
    originals = {n: getattr(BibleWriter, method(n)) for n in FOLDERS}
    assert all(method(n) not in Bible.__dict__ for n in FOLDERS)
    hows = (False, "OSError", "TypeError") if a == "PickleObject" else (False, "OSError", "ValueError")
    plans = [{a: h} for h in hows] + [{a: h, b: g} for b in FOLDERS if b > a for h in hows for g in (False, "OSError")]
    try:
        for plan, wanted in [(p, w) for p in plans for w in ((True, True, True), (False, False, False))] + [({a: hows[1]}, w) for w in itertools.product((True, False), repeat=3)]:
            key = f"{procs} processes, " + ", ".join(f"{n} {h}" for n, h in plan.items()) + f", wanted {[n for n, w in zip(OPTIONAL, wanted) if w]}"
            with ctx.case(key, seconds=60):
                CALLS = []
                for n in FOLDERS: setattr(BibleWriter, method(n), fail(n, plan.get(n, True)))
                B = Bible(); B.name = "Test"; B.objectTypeString = "USFM3"
                B.discoveryResults = {"ALL": {"chapterCount": 1}}; B.doneSetupGeneric = True
                B.projectName = "Test"
                G.maxProcesses, Pool.late = (4, True) if procs == "late" else (procs, False)
                root = ctx.scratch("o")
                try: res = B.doAllExports(str(root), wantPhotoBible=wanted[0], wantODFs=wanted[1], wantPDFs=wanted[2])
                finally: G.maxProcesses = 1; Pool.late = False; busy, G.alreadyMultiprocessing = G.alreadyMultiprocessing, False
                ctx.step(); ctx.state(key)
                want = {}
                for n in FOLDERS:
                    if NAMES.get(n, "") is None: continue
                    v = None if n in OPTIONAL and not wanted[OPTIONAL.index(n)] else plan.get(n, True) is True
                    if procs == "late" and v is not None and n not in ("PickleObject", "ODF"): v = True           # whether it failed isn't known
                    want[NAMES.get(n) or n.replace("XML", "") + "Export"] = v
                got = {k: v if v is None else bool(v) for k, v in res.items()}
                ctx.expect(got == want, key, lambda: "results " + ", ".join(f"{k} {got.get(k, '-')} not {want.get(k, '-')}" for k in {**got, **want} if got.get(k, "-") != want.get(k, "-")), plan)
                called = [(n, str(root / f)) for n, f in FOLDERS.items() if not (n in OPTIONAL and not wanted[OPTIONAL.index(n)]) and (procs != "late" or n in ("PickleObject", "ODF"))]
                ctx.equal(sorted(CALLS), sorted(called), key, "exports")
                ctx.equal(busy, False, key, "busy flag afterwards")
    finally:
        for n, f in originals.items(): setattr(BibleWriter, method(n), f)

def run(ctx, shard):
    kind, a = shard[:2]
    if kind == "same":
        sequence(ctx, (a,))
        for b in ALL: sequence(ctx, (a, b))
    elif kind == "triple":
        for c in ALL: sequence(ctx, (a, shard[2], c))
    elif kind == "other":
        for b in EXPORTS:                # first of one Bible, then of the other one, then of the first again
            key = f"{a} of another Bible then {b}"
            with ctx.case(key, seconds=60):
                A, B = P01.make(P01.SMALL), P01.make(SECOND)
                for X, which, name in ((A, "A", a), (B, "B", b), (A, "A", a)):
                    ctx.step(); d = ctx.scratch("o") / "new"
                    do(X, name, d)
                    compare(ctx, key, contents(d), baseline(ctx, which, name))
                ctx.state(key)
    elif kind == "folder":
        for first in ("none", "empty", "used", "string", "deep", "slash"):
            key = f"{a} into {first} folder"
            with ctx.case(key, seconds=60):
                root = ctx.scratch("o"); d = root / ("x/y/new" if first == "deep" else "new")
                if first in ("empty", "used"): d.mkdir()
                B = P01.make(P01.SMALL)
                if first == "used": do(B, a, d); B = P01.make(P01.SMALL)
                ctx.step()
                ok = do(B, a, str(d) if first == "string" else str(d) + "/" if first == "slash" else d)
                ctx.expect(ok is not False, key, "the export did not report success")
                compare(ctx, key, contents(d), baseline(ctx, "A", a))
                ctx.state(key)
    elif kind == "fault": faults(ctx, a, shard[2])
    else:
        with ctx.case(f"all exports, {a} processes", seconds=300):
            B = P01.make(P01.SMALL)
            root = ctx.scratch("o")
            G.maxProcesses = a
            try: res = B.doAllExports(str(root), wantPhotoBible=False, wantODFs=False, wantPDFs=True)
            finally: G.maxProcesses = 1; G.alreadyMultiprocessing = False
            folders = {"PickleObject": "BOS_Bible_Object_Pickle", "PickledBible": "BOS_PickledBible_Export", "Lists": "BOS_Lists", "BOSBCV": "BOS_BCV_Export", "PseudoUSFM": "BOS_PseudoUSFM_Export", "USFM2": "BOS_USFM2_Export", "USFM3": "BOS_USFM3_Reexport",
                       "ESFM": "BOS_ESFM_Export", "Text": "BOS_PlainText_Export", "VPL": "BOS_VersePerLine_Export", "Markdown": "BOS_Markdown_Export", "HTML5": "BOS_HTML5_Export", "BibleDoor": "BOS_BibleDoor_Export", "EasyWorshipBible": "BOS_EasyWorshipBible_Export",
                       "USX2XML": "BOS_USX2_Export", "USXXML": "BOS_USX3_Export", "USFXXML": "BOS_USFX_Export", "OSISXML": "BOS_OSIS_Export", "ZefaniaXML": "BOS_Zefania_Export", "HaggaiXML": "BOS_Haggai_Export", "OpenSongXML": "BOS_OpenSong_Export",
                       "SwordModule": "BOS_Sword_Export", "theWord": "BOS_theWord_Export", "MySword": "BOS_MySword_Export", "ESword": "BOS_e-Sword_Export", "MyBible": "BOS_MyBible_Export", "SwordSearcher": "BOS_SwordSearcher_Export", "DrupalBible": "BOS_DrupalBible_Export", "TeX": "BOS_TeX_Export"}
            ctx.equal(sorted(os.listdir(root)), sorted(folders.values()), f"all exports, {a} processes", "folders")
            for name, f in folders.items():
                ctx.step(); got = contents(root / f)
                if name == "MyBible": got = {re.sub(r"_\d+\.", ".", n): {re.sub(r"_\d+\.", ".", m): x for m, x in v.items()} if isinstance(v, dict) else v for n, v in got.items()}   # the number is random
                compare(ctx, f"{name} in all exports, {a} processes", got, baseline(ctx, "A", name))
            ctx.expect(isinstance(res, dict) and all(v is not False for k, v in res.items()), f"all exports, {a} processes", lambda: f"results {res}")
