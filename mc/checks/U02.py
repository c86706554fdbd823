"""U02: exporting a Bible to USFM and loading the files again gives the same Bible (all bounded documents, several books per Bible)."""
import itertools, re, shutil
from pathlib import Path
import lib
from checks import usfmdocs as U
from checks import L01

PROP = dict(
    title="A Bible exported to USFM and loaded again is the same Bible",
    statement="Exporting a loaded Bible as USFM2 or USFM3 and loading the files again gives, for every book, the same entries in the same order: chapters, verses, titles, headings, paragraphs, "
              "texts with their character formatting, notes and word attributes (only Strong's number fields may be left out, and USFM3 files declare their version in every book). "
              "With verse bridges removed, every verse number of every bridge appears exactly once, in order, in its chapter, and no text changes. Every book is in the zip, gzip and bzip2 collections.",
    over=["inputs", "configurations"],
    qtext="all bounded sequences of lines and of in-line items, packed as books of multi-book Bibles, for both formats, with and without verse bridges",
    why="No test exports anything and reads it back; the exporter rebuilds each line from an internal marker and flags that persist over lines and books.",
    files=["BibleOrgSys/BibleWriter.py", "BibleOrgSys/Internals/InternalBibleBook.py", "BibleOrgSys/Formats/USFMBibleBook.py"],
    mechanism=[("BibleWriter.toUSFM3 / toUSFM2", "BibleOrgSys/BibleWriter.py"), ("USFMBibleBook.load", "BibleOrgSys/Formats/USFMBibleBook.py"), ("InternalBibleEntry.getFullText", "BibleOrgSys/Internals/InternalBibleInternals.py")],
)
BOUNDS = ("documents: the line sequences of L01 (all of <=3 / <=4 lines from 18 kinds, <=4 from 8 kinds, introductions, heads) packed 24 books to a Bible; in-line sequences of <=2 / <=3 items of 23 kinds in 8 kinds of line; "
          "bridges: all sequences of <=4 / <=5 from {verse, bridges of 2 and 3, chapter, heading, paragraph}")
ASSUMPTIONS = ["verse bridges use a hyphen (the verse index requires one and says so)", "a document which already declares its USFM version is compared without that declaration", "Strong's number fields are left out on export by design and are not part of the in-line alphabet"]

CODES = "GEN EXO LEV NUM DEU JOS JDG SA1 SA2 KI1 KI2 CH1 CH2 NEH EST JOB PRO ECC SNG ISA JER LAM EZE DAN".split()

def setup(tier):
    global Bible, BOOK, G
    G = lib.bos()
    from BibleOrgSys.Bible import Bible
    from BibleOrgSys.Formats.USFMBibleBook import USFMBibleBook
    from BibleOrgSys.Formats.USFM2BibleBook import USFM2BibleBook
    BOOK = {"USFM3": USFMBibleBook, "USFM2": USFM2BibleBook}
    L01.setup(tier)

def bible(books, kind="USFM3"):
    B = Bible()
    B.objectNameString, B.objectTypeString = "Test Bible object", kind
    B.name = B.abbreviation = B.projectName = B.shortName = "Test"
    for code, raw in books.items():
        raw = [(m, t.replace("GEN", code, 1) if m == "id" else t) for m, t in raw]
        B.stashBook(U.build(raw, code, kind))
    return B

def shards(tier):
    res = [("doc",) + s for s in U.documents(tier, quick=3, thorough=3)]
    res += [("inline", l, i) for l in L01.LINES for i in range(len(L01.ITEMS))]
    res += [("bridge", a) for a in BRIDGE]
    return res

BRIDGE = ["v", "b2", "b3", "c", "s", "p"]

def entry(e):
    return (e.getMarker(), (e.getOriginalMarker() or '').removesuffix('1'), e.getAdjustedText(), e.getCleanText(), e.getFullText(), tuple((x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in (e.getExtras() or [])))

def reload(folder, fmt, code):
    from BibleOrgSys import BibleOrgSysGlobals
    hits = [p for p in folder.iterdir() if p.suffix == ".usfm" and code[:3] in p.name.upper().replace("1SA", "SA1").replace("2SA", "SA2").replace("1KI", "KI1").replace("2KI", "KI2").replace("1CH", "CH1").replace("2CH", "CH2").replace("EZK", "EZE")]
    if len(hits) != 1: return None
    b = BOOK[fmt]("Test", code)
    b.objectNameString, b.objectTypeString = "Test book object", "USFM3"
    b.load(hits[0].name, str(folder), "utf-8")
    raw = list(b._rawLines)
    b.processLines()
    return raw, b._processedLines

def roundtrip(ctx, books, fmt, names):
    """books: code -> raw lines"""
    folder = ctx.scratch("out")
    key0 = f"{fmt}:" + " || ".join(U.show(r) for r in books.values()) if len(books) < 3 else f"{fmt}: {len(books)} books from {U.show(next(iter(books.values())))}"
    with ctx.case(key0, seconds=120):
        B = bible(books)
        if not ctx.expect(getattr(B, "to" + fmt)(folder) is True, key0, "the export did not report success"): return
        for code, raw in books.items():
            key = f"{fmt}: {U.show(raw)}"
            ctx.step(len(raw)); ctx.trace()
            got = reload(folder, fmt, code)
            if not ctx.expect(got is not None, key, f"no single exported file for {code}", raw): continue
            rawgot, got = got
            want = [entry(e) for e in B.books[code]._processedLines if e.getMarker() != "usfm"]
            have = [entry(e) for e in got if e.getMarker() != "usfm"]
            ctx.state(tuple(w[:2] for w in want), tuple(w[5] for w in want))
            if have != want:
                i = next((i for i, (a, b) in enumerate(itertools.zip_longest(have, want)) if a != b), 0)
                ctx.violation(key, f"entry {i} after the round trip is {lib.short(have[i] if i < len(have) else None)}, was {lib.short(want[i] if i < len(want) else None)}", raw); continue
            if fmt == "USFM3": ctx.expect([m for m, _ in rawgot].count("usfm") == 1, key, lambda: f"{[m for m,_ in rawgot].count('usfm')} version declarations in the USFM3 file", raw)
        collections(ctx, folder, fmt, key0)
    ctx.sample(key0)

def collections(ctx, folder, fmt, key):
    import zipfile, tarfile
    files = {p.name: p.read_bytes() for p in folder.iterdir() if p.suffix == ".usfm"}
    for kind in ("zip", "gzip", "bz2"):
        p = folder / f"All{fmt}Files.{kind}"
        if kind == "zip":
            with zipfile.ZipFile(p) as z: got = {n: z.read(n) for n in z.namelist() if n.endswith(".usfm")}
        else:
            with tarfile.open(p, "r:gz" if kind == "gzip" else "r:bz2") as t: got = {m.name: t.extractfile(m).read() for m in t.getmembers()}
        ctx.expect(got == files, key, f"the {kind} collection does not hold the exported books")

def batches(it, n):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b: return
        yield b

def run(ctx, shard):
    if shard[0] == "doc":
        for batch in batches(U.expand(shard[1:], ctx.tier), len(CODES)):
            books = {c: U.raw(h, t) for c, (h, t) in zip(CODES, batch)}
            for fmt in ("USFM3", "USFM2"):
                roundtrip(ctx, books, fmt, None)
            if ctx.full: return
    elif shard[0] == "inline":
        line, i = shard[1:]
        items = [x for x in L01.ITEMS if x[0] != "str"]
        if L01.ITEMS[i][0] == "str": return
        def docs():
            for k in range(0, 2 if ctx.quick else 3):
                for rest in itertools.product(items if k < 2 else items[::2], repeat=k):
                    for attach in (False, True) if any(x[0] in L01.ATTACH for x in rest) else (False,):
                        src = ""
                        for n, it in enumerate((L01.ITEMS[i],) + rest): src += ("" if n == 0 or (attach and it[0] in L01.ATTACH) else " ") + it[1]
                        yield [("id", "GEN")] + {"v": [("c", "1"), ("p", ""), ("v", "1 " + src), ("v", "2 end")], "c": [("c", "1 " + src), ("p", ""), ("v", "1 end")],
                                "mt1": [("h", "Gen"), ("mt1", src), ("c", "1"), ("p", ""), ("v", "1 end")], "ip": [("ip", src), ("c", "1"), ("p", ""), ("v", "1 end")]}.get(line, [("c", "1"), (line, src), ("p", ""), ("v", "1 end")])
        for batch in batches(docs(), len(CODES)):
            for fmt in ("USFM3", "USFM2"): roundtrip(ctx, dict(zip(CODES, batch)), fmt, None)
            if ctx.full: return
    else:
        def docs():
            for k in range(0, 4 if ctx.quick else 5):
                for rest in itertools.product(BRIDGE, repeat=k):
                    yield (shard[1],) + rest, "-"
        for batch in batches(docs(), len(CODES)):
            for fmt in ("USFM3", "USFM2"): bridges(ctx, dict(zip(CODES, batch)), fmt)
            if ctx.full: return

def bridges(ctx, books, fmt):
    folder = ctx.scratch("out")
    raws, wants = {}, {}
    for code, (tokens, dash) in books.items():
        raw, want, V, C, n = [("id", "GEN"), ("c", "1"), ("p", "")], [], 0, 1, 0
        texts = []
        for t in tokens:
            n += 1
            if t == "c": C += 1; V = 0; raw.append(("c", str(C)))
            elif t == "s": raw.append(("s1", f"head{n}")); texts.append(f"head{n}")
            elif t == "p": raw.append(("p", ""))
            else:
                k = {"v": 1, "b2": 2, "b3": 3}[t]
                num = str(V + 1) if k == 1 else f"{V + 1}{dash}{V + k}"
                raw.append(("v", f"{num} words{n}")); texts.append(f"words{n}")
                want += [(C, V + 1 + i) for i in range(k)]; V += k
        raws[code], wants[code] = raw, (want, texts)
    key0 = f"bridges {fmt}: {len(raws)} books from {U.show(next(iter(raws.values())))}"
    with ctx.case(key0, seconds=120):
        B = bible(raws)
        ctx.expect(getattr(B, "to" + fmt)(folder, removeVerseBridges=True) is True, key0, "the export did not report success")
        for code, raw in raws.items():
            key = f"bridges {fmt}: {U.show(raw)}"
            ctx.step(len(raw)); ctx.trace()
            got = reload(folder, fmt, code)
            if not ctx.expect(got is not None, key, "no exported file", raw): continue
            C, nums, texts = 0, [], []
            for m, t in got[0]:
                if m == "c": C = int(t)
                elif m == "v":
                    num, _, rest = t.partition(" ")
                    nums.append((C, int(num) if num.isdigit() else num))
                    if rest: texts += rest.split()
                elif m == "s1": texts += t.split()
            ctx.state("bridge", tuple(nums))
            ctx.equal(nums, wants[code][0], key, "chapter and verse numbers", raw)
            ctx.equal(texts, wants[code][1], key, "texts", raw)
