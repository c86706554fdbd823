"""N01: a Bible is found in its folder, recognised and loaded: bounded folder layouts of Bibles in every format."""
import importlib, itertools
import lib
from checks import U04, U07

PROP = dict(
    title="Searching a folder finds exactly the Bibles which are in it",
    statement="Searching a folder (UnknownBible.search with its normal strict checking, or the FileCheck function of a format) finds exactly the Bibles which are in the folder, or if there are none of a format, those one folder further down: "
              "each in its own format, counted once, with backup copies, ignored folders, deeper folders and files which are no Bibles left out. A single Bible is named by its format and, when asked for, returned as a Bible object of that format with all its books and verses; "
              "several are told as several Bibles of one format or as many formats, and nothing is found where there is nothing. Searching changes no file.",
    over=["inputs", "configurations"],
    qtext="all placements of up to two Bibles of any formats in a folder, two subfolders, an ignored folder and a deeper folder, with every kind of other file beside them",
    why="The tests search only fixed sample folders, mostly absent; each of about thirty detectors has its own two copies of the search (for the folder and one level down).",
    files=["BibleOrgSys/UnknownBible.py", "BibleOrgSys/Formats/VPLBible.py", "BibleOrgSys/Formats/USXXMLBible.py", "BibleOrgSys/InputOutput/USFMFilenames.py"],
    mechanism=[("search", "BibleOrgSys/UnknownBible.py"), ("…BibleFileCheck", "BibleOrgSys/Formats/*.py")],
)
BOUNDS = ("37 kinds of Bible (26 readable ones in 15 text and XML formats, with BOM and layout variants, 11 that are searched for only), one at each of 5 places with each of 9 kinds of other files; all pairs of kinds and places (quick: the readable kinds at the places that count); "
          "every search option (load nothing, the Bible, its books, always); the FileCheck function of every format on each")
ASSUMPTIONS = ["strict checking (the default); without it several readers accept any file by design",
               "formats known by their file names only (theWord, MySword, e-Sword, MyBible) and OSIS Bibles are searched for, not loaded",
               "folders beside or inside a Paratext 7 project with USFM files are part of it; USFM files of different kinds in one folder are outside the claim",
               "an ESFM Bible is a USFM Bible also, so a plain search tells of many formats"]

VS = [("GEN", 1, 1, "In the start"), ("GEN", 1, 2, "and then more"), ("GEN", 2, 1, "third one"), ("EXO", 1, 1, "These are names"), ("EXO", 1, 2, "of the men")]
WANT = [(b, str(c), str(v), t) for b, c, v, t in VS]
BOM = "\ufeff"

class Kind:
    def __init__(self, name, found, files, cls=None, folderwise=False): self.name, self.found, self.files, self.cls, self.folderwise = name, found, files, cls, folderwise

def usfm(b, head):
    out, last = [f"\\id {b} - test", *head, f"\\h {b.title()}", f"\\toc1 {b.title()}"], None
    for x, c, v, t in VS:
        if x != b: continue
        if c != last: out += [f"\\c {c}", "\\p"]; last = c
        out.append(f"\\v {v} {t}")
    return "\n".join(out) + "\n"

def usx(b):
    out, last = ['<?xml version="1.0" encoding="utf-8"?>', '<usx version="2.0">', f'<book code="{b}" style="id">test</book>'], None
    for x, c, v, t in VS:
        if x != b: continue
        if c != last: out += (["</para>"] if last else []) + [f'<chapter number="{c}" style="c" />', '<para style="p">']; last = c
        out.append(f'<verse number="{v}" style="v" />{t}')
    return "\n".join(out + ["</para>", "</usx>"]) + "\n"

def usfx(nl):
    out, last, lb = ["<?xml version=\"1.0\" encoding=\"utf-8\"?>", '<usfx xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="usfx.xsd">', "<languageCode>eng</languageCode>"], None, None
    for b, c, v, t in VS:
        if (b, c) != last:
            if last: out.append("</p>")
            if b != lb: out += (["</book>"] if lb else []) + [f'<book id="{b}">', f'<id id="{b}">test</id>']
            out += [f'<c id="{c}" />', "<p>"]; last, lb = (b, c), b
        out.append(f'<v id="{v}" />{t}<ve />')
    return (BOM if nl == "bom" else "") + "\n".join(out + ["</p>", "</book>", "</usfx>"]) + "\n"

def osis(quote):
    out, last, lb = [f"<?xml version={quote}1.0{quote} encoding={quote}UTF-8{quote}?>", '<osis xmlns="http://www.bibletechnologies.net/2003/OSIS/namespace">', '<osisText osisRefWork="Bible" xml:lang="en" osisIDWork="T">',
        '<header><work osisWork="T"><title>Test</title><type type="OSIS">Bible</type><identifier type="OSIS">T</identifier><refSystem>Bible</refSystem></work></header>'], None, None
    for b, c, v, t in VS:
        o = dict(GEN="Gen", EXO="Exod")[b]
        if (b, c) != last:
            if last: out.append("</p></chapter>")
            if b != lb: out += (["</div>"] if lb else []) + [f'<div type="book" osisID="{o}">']
            out += [f'<chapter osisID="{o}.{c}"><p>']; last, lb = (b, c), b
        out.append(f'<verse osisID="{o}.{c}.{v}">{t}</verse>')
    return "\n".join(out + ["</p></chapter>", "</div>", "</osisText>", "</osis>"]) + "\n"

def kinds():
    out = []
    for name, variants in (("Unbound", (0, 4, 6)), ("YET", (0,)), ("CSV", (0, 9)), ("Drupal", (0, 1)), ("Forge", (0, 1)), ("VPL", (0, 1, 2, 4)), ("OpenSong", (0, 1)), ("VerseView", (0,)), ("Zefania", (0,)), ("Haggai", (0,))):
        f = getattr(U04, name)()
        for v in variants:
            def files(n, f=f, v=v): return {(f.ext if n == 0 else f.ext.replace("x", "y", 1) if f.ext != "x" else "y"): f.write(VS, f.variants[v])}
            out.append(Kind(f"{name}{v}", {name}, files, f.cls))
    two = {"GEN": "01-GEN", "EXO": "02-EXO"}
    out.append(Kind("USFM2", {"USFM2"}, lambda n: {two[b] + ".usfm": usfm(b, []) for b in two}, "USFM2Bible", True))
    out.append(Kind("USFM3", {"USFM"}, lambda n: {two[b] + "tst.SFM": usfm(b, ["\\usfm 3.0"]) for b in two}, "USFMBible", True))
    out.append(Kind("USFM3bom", {"USFM"}, lambda n: {b + ".usfm": BOM + usfm(b, ["\\usfm 3.0"]) for b in two}, "USFMBible", True))
    out.append(Kind("ESFM", {"ESFM", "USFM"}, lambda n: {f"OET-RV_{b}.ESFM": usfm(b, ["\\usfm 3.0", "\\rem ESFM v0.6 " + b]) for b in two}, "ESFMBible", True))
    out.append(Kind("USX", {"USX"}, lambda n: {"0" + two[b].replace("-", "") + ".usx": usx(b) for b in two}, "USXXMLBible", True))
    out.append(Kind("USFX", {"USFX"}, lambda n: {f"test{n}.xml": usfx("")}, "USFXXMLBible"))
    out.append(Kind("USFXbom", {"USFX"}, lambda n: {f"test{n}.usfx": usfx("bom")}, "USFXXMLBible"))
    out.append(Kind("OSIS", {"OSIS"}, lambda n: {f"test{n}.xml": osis('"')}))
    out.append(Kind("OSISq", {"OSIS"}, lambda n: {f"test{n}.xml": osis("'")}))
    X = '<?xml version="1.0" encoding="utf-8"?>\n<settings>\n<a/>\n</settings>\n'
    out.append(Kind("PTX8", {"PTX8", "USFM"}, lambda n: {two[b] + "PT8.SFM": usfm(b, ["\\usfm 3.0"]) for b in two} | {f: X for f in ("BookNames.xml", "CheckingStatus.xml", "CommentTags.xml", "ProjectProgress.xml", "Settings.xml", "TermRenderings.xml", "unique.id", "en.ldml")}, None, True))
    out.append(Kind("PTX7", {"PTX7"}, lambda n: {two[b] + "PT7.SFM": usfm(b, []) for b in two} | {f: X for f in ("BookNames.xml", "CheckingStatus.xml", "ProjectUsers.xml", "PT7.ssf", "usfm-color.sty")}, None, True))
    out.append(Kind("SB", {"SB"}, lambda n: {"metadata.json": "{}\n", "ingredients/a.txt": "a\n"}, None, True))
    out.append(Kind("DBL", {"DBL"}, lambda n: {"metadata.xml": X, "license.xml": X, "USX_1/a.txt": "a\n"}, None, True))
    for t, name in (("theWord", "x{}.ont"), ("theWord", "x{}.NT"), ("MySword", "x{}.bbl.mybible"), ("e-Sword-Bible", "x{}.bblx"), ("MyBible", "x{}.SQLite3")):
        out.append(Kind(name.format(""), {t}, lambda n, name=name: {name.format(n): "data\n"}))
    return out

OTHERS = {"nothing": {}, "readme": {"readme.txt": "Read me first\nand then\nthe other\nfiles\nhere\n"}, "xml": {"data.xml": '<?xml version="1.0" encoding="utf-8"?>\n<data>\n<item/>\n</data>\n'}, "empty": {"empty.txt": "", "empty.xml": "", "empty": ""},
          "latin": {"latin.txt": b"caf\xe9\nl\xe0\nx\ny\nz\n"}, "bytes": {"picture.jpg": bytes(range(256)), "noname": bytes(range(255, -1, -1))}, "blank": {"blank.txt": "\n\n\n\n\n", "blank.xml": "\n\n\n\n"}, "notes": {"notes/": ""}, "hidden": {".settings": "x\n", "desktop.ini": "[x]\n"}}
PLACES = ["", "A/", "B/", ".git/", "A/deep/"]

CHECKS = {"Unbound": "UnboundBible", "YET": "YETBible", "CSV": "CSVBible", "Drupal": "DrupalBible", "Forge": "ForgeForSwordSearcherBible", "VPL": "VPLBible", "OpenSong": "OpenSongXMLBible", "VerseView": "VerseViewXMLBible", "Zefania": "ZefaniaXMLBible",
          "Haggai": "HaggaiXMLBible", "USFM2": "USFM2Bible", "USFM": "USFMBible", "ESFM": "ESFMBible", "USX": "USXXMLBible", "USFX": "USFXXMLBible", "OSIS": "OSISXMLBible", "theWord": "theWordBible", "MySword": "MySwordBible", "e-Sword-Bible": "ESwordBible",
          "MyBible": "MyBibleBible", "PalmDB": "PalmDBBible", "e-Sword-Commentary": "ESwordCommentary", "GoBible": "GoBible", "PierceOnline": "PierceOnlineBible", "EasyWorship": "EasyWorshipBible", "Sword": "SwordBible", "PTX8": "PTX8Bible", "PTX7": "PTX7Bible",
          "SB": "ScriptureBurritoBible", "DBL": "DBLBible", "Pickled": "PickledBible"}
TITLE = {t: t + (" XML" if c.endswith("XMLBible") else "") + " Bible" for t, c in CHECKS.items()} | {"e-Sword-Bible": "e-Sword Bible"}

def setup(tier):
    global G, KINDS, CHECK, UnknownBible
    G = lib.bos()
    KINDS = kinds()
    from BibleOrgSys.UnknownBible import UnknownBible
    CHECK = {t: getattr(importlib.import_module("BibleOrgSys.Formats." + c), c + "FileCheck") for t, c in CHECKS.items()}

def counts(items):
    """How many Bibles of each format a search must find: those in the folder, or else those one level down"""
    res = {}
    for places in ([""], ["A/", "B/"]):
        here = {}
        for p in places:
            done = set()
            for k, q in items:
                if q != p: continue
                for t in k.found:
                    if k.folderwise and t in done: continue
                    done.add(t); here[t] = here.get(t, 0) + 1
        for t, n in here.items(): res.setdefault(t, n)
    return res

def make(folder, items, others):
    files = {}
    for i, (k, p) in enumerate(items):
        n = sum(1 for q in items[:i] if q == (k, p))
        for name, text in k.files(n).items(): files[p + name] = text
    for name, text in others.items(): files[name] = text
    for name, text in files.items():
        f = folder / name
        if name.endswith("/"): f.mkdir(exist_ok=True); continue
        f.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(text, bytes): f.write_bytes(text)
        else: f.write_text(text, encoding="utf-8")

def snapshot(folder): return sorted((str(f.relative_to(folder)), f.read_bytes() if f.is_file() else None) for f in folder.rglob("*"))

def loaded(ctx, key, B, cls, books):
    if not ctx.equal(type(B).__name__, cls, key, "class of what is returned"): return
    if books: ctx.equal(U04.read(B), WANT, key, "verses of the Bible returned")

def look(ctx, items, others, oname, deep):
    key0 = " ".join(f"{k.name}@{p or 'top'}" for k, p in items) + f" with {oname}"
    folder = ctx.scratch()
    with ctx.case(key0):
        make(folder, items, others)
        before = snapshot(folder)
        want = counts(items)
        readable = all(k.cls for k, p in items)
        total = sum(want.values())
        ctx.state(key0)
        for t, check in CHECK.items():
            key = f"{t} FileCheck: {key0}"
            with ctx.case(key):
                ctx.step()
                ctx.equal(check(str(folder)) or 0, want.get(t, 0), key, "number of Bibles found")
        for t, n in want.items():
            if n < 2 or not CHECKS[t] in {k.cls for k, p in items}: continue
            for books in (False, True):
                key = f"{t} FileCheck loading{' books' * books}: {key0}"
                with ctx.case(key):
                    ctx.step()
                    ctx.equal(CHECK[t](str(folder), autoLoad=True, autoLoadBooks=books), n, key, "number of Bibles found")
        expected = "None found" if not total else TITLE[next(iter(want))] if total == 1 else f"Multiple found: {next(iter(want))}:{total} Bibles" if len(want) == 1 else "Many types found"
        key = f"search: {key0}"
        with ctx.case(key):
            ctx.step()
            U = UnknownBible(str(folder))
            r = U.search()
            ctx.equal(r, expected, key, "answer"); ctx.equal(U.foundType, r, key, "foundType")
        if readable and deep:
            single = {t for t, n in want.items() if n == 1}
            classes = {CHECKS[t] for t in single}
            if "ESFMBible" in classes and "USFMBible" in classes and all(k.name == "ESFM" for k, p in items): classes = {"ESFMBible"}
            for t in CHECK:
                if want.get(t) != 1: continue
                for books in (False, True):
                    key = f"{t} FileCheck loading{' books' * books}: {key0}"
                    with ctx.case(key):
                        ctx.step()
                        B = CHECK[t](str(folder), autoLoad=True, autoLoadBooks=books)
                        loaded(ctx, key, B, CHECKS[t], books)
            for how in ("autoLoad", "autoLoadBooks", "autoLoadAlways", "both"):
                key = f"search {how}: {key0}"
                with ctx.case(key):
                    ctx.step()
                    opts = dict(autoLoadAlways=True, autoLoadBooks=True) if how == "both" else {how: True}
                    r = UnknownBible(str(folder)).search(**opts)
                    if total == 1 or how in ("autoLoadAlways", "both") and classes:
                        if not ctx.expect(type(r).__name__ in classes, key, lambda: f"returned {r!r}, not one of {sorted(classes)}"): continue
                        loaded(ctx, key, r, type(r).__name__, how in ("autoLoadBooks", "both"))
                    else: ctx.equal(r, expected, key, "answer")
        ctx.expect(snapshot(folder) == before, key0, "a search changed the files")

def shards(tier):
    n = len(kinds_names())
    return [("none",)] + [("one", i) for i in range(n)] + [("two", i, j) for i in range(n) for j in (range(i, n) if tier != "quick" else [i])] + ([("pair", i) for i in range(n)] if tier == "quick" else [])

def kinds_names(): return [k.name for k in kinds()]

def backups(items):
    return {p + name + ".bak": text for k, p in items for name, text in k.files(0).items()}

def run(ctx, shard):
    if shard[0] == "none":
        for n in range(len(OTHERS) + 1):
            for seq in itertools.combinations(OTHERS, n):
                both = {}
                for o in seq: both |= OTHERS[o]
                look(ctx, [], both, "+".join(seq), True)
            if ctx.full: return
    elif shard[0] == "one":
        k = KINDS[shard[1]]
        for p in PLACES:
            for oname, others in OTHERS.items(): look(ctx, [(k, p)], others, oname, True)
            if k.cls: look(ctx, [(k, p)], backups([(k, p)]), "backup", True)
            look(ctx, [(k, p)], {p + n: t for n, t in OTHERS["readme"].items()}, "readme beside", True)
    elif shard[0] == "two":
        a, b = KINDS[shard[1]], KINDS[shard[2]]
        for p, q in itertools.product(PLACES, repeat=2):
            if a is b and (PLACES.index(p) > PLACES.index(q) or p == q and a.folderwise): continue
            if clash(a, b, p, q): continue
            look(ctx, [(a, p), (b, q)], {}, "nothing", not ctx.quick)
            if ctx.full: return
    else:
        a = KINDS[shard[1]]
        for b in KINDS[shard[1] + 1:]:
            for p, q in (("", ""), ("A/", "B/"), ("", "A/"), ("A/", "")):
                if not clash(a, b, p, q): look(ctx, [(a, p), (b, q)], {}, "nothing", False)

UU = {"USFM2", "USFM", "PTX7"}
def clash(a, b, p, q):
    """The same file names, or USFM files of different kinds, in the same folder"""
    if a.found & UU and b.found & UU and "PTX7" in a.found | b.found: return True # the folders of a Paratext project are part of it
    if p != q or a is b: return False
    if a.found & UU and b.found & UU: return True
    return bool(set(a.files(0)) & set(b.files(0)))
