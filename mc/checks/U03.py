"""U03: exports to verse formats hold each verse's text once, in order, under its own reference (all bounded documents, several books per Bible)."""
import itertools, json, re, zipfile
import xml.etree.ElementTree as ET
import lib
from checks import usfmdocs as U
from checks import L01
from checks import U02

PROP = dict(
    title="Verse-format exports hold every verse's text exactly once and in order",
    statement="Exporting a Bible as plain text, verse-per-line (Forge), SwordSearcher, DrupalBible, OpenSong XML or one file per verse (BCV) gives, for each book, exactly its verses in order, each "
              "under its own chapter and verse number (or the number given for publishing it, where the format uses that) with all of its text (every paragraph and poetry line of the verse, without notes) and nothing else: no headings, references, titles or "
              "introductions, and no text of another verse. An empty verse may be left out, and a line without text may have a filler.",
    over=["inputs", "configurations"],
    qtext="all bounded sequences of lines and in-line items, as books of multi-book Bibles, for six export formats",
    why="No test looks at what is exported; every exporter walks the processed lines with its own buffers, which are flushed at the next verse, chapter and book.",
    files=["BibleOrgSys/BibleWriter.py", "BibleOrgSys/Formats/OpenSongXMLBible.py", "BibleOrgSys/Internals/InternalBibleBook.py"],
    mechanism=[("BibleWriter.toText / toVPL / toSwordSearcher / toDrupalBible", "BibleOrgSys/BibleWriter.py"), ("createOpenSongXML", "BibleOrgSys/Formats/OpenSongXMLBible.py"),
               ("InternalBibleBook.writeBOSBCVFiles", "BibleOrgSys/Internals/InternalBibleBook.py")],
)
BOUNDS = ("documents of a chapter with all sequences of <=3 lines from 18 kinds and <=4 from 8 kinds (thorough: also <=4 from 13 kinds and <=5 from 8 kinds), introductions, heads; in-line sequences of <=2 / <=3 items; 3 / 4 steps of 11 kinds with published verse numbers; packed 24 books to a Bible, six formats each")

CODES = U02.CODES
FORGE = dict(GEN="Ge", LEV="Le", LAM="La", MAT="Mt", JDE="Jude")
SSE = dict(GEN="Ge", EXO="Ex", LEV="Le", NUM="Nu", DEU="De", JOS="Jos", JDG="Jg", SA1="1Sa", SA2="2Sa", KI1="1Ki", KI2="2Ki", CH1="1Ch", CH2="2Ch", NEH="Ne", EST="Es", JOB="Job", PRO="Pr", ECC="Ec", SNG="Song", ISA="Isa", JER="Jer", LAM="La", EZE="Eze", DAN="Da")

ITEMS = [x for x in L01.ITEMS if x[0] not in ("str", "wwin")] + [("amp", "salt & light", "", "salt & light", []), ("quo", "say \"go\" 'now'", "", "say \"go\" 'now'", []), ("bar", "a|b; $$ c", "", "a|b; $$ c", [])]

def setup(tier):
    U02.setup(tier)
    global G
    G = lib.bos()

def shards(tier):
    return [("doc",) + s for s in U.documents(tier, quick=3, thorough=4)] + [("inline", l, i) for l in ("v", "p", "q1") for i in range(len(ITEMS))] + [("published", i) for i in range(len(STEPS))]

STEPS = ["plain", "published", "publishedletter", "nospace", "late", "notext", "bridge", "chapter", "p", "q1", "s1"]

def published(ctx, i):
    """Verses with a published number: it stands for the own number of this verse only (BCV keeps the own numbers and the markup, VPL the own numbers)"""
    for k in range(1, 3 if ctx.quick else 4):
        for rest in itertools.product(STEPS, repeat=k):
            C, V, r, a, b, c = 1, 0, [("id", "GEN"), ("h", "Gen"), ("c", "1"), ("p", "")], [], [], []
            for n, step in enumerate((STEPS[i],) + rest + ("plain",)):
                t = f"t{n}"
                if step == "chapter": C, V = C + 1, 0; r += [("c", str(C)), ("p", "")]; continue
                if step in ("p", "q1", "s1"):
                    if not V and step != "s1": continue
                    r.append((step, t))
                    if step != "s1":
                        for x in (a, b, c): x[-1][2] += " " + t
                    continue
                V += 1; own = shown = str(V); text = raw = t
                if step in ("published", "nospace", "notext"): shown = str(50 + n)
                elif step == "publishedletter": shown = f"{50 + n}b"
                elif step == "late": shown = str(50 + n); raw = f"{t}\\vp {shown}\\vp*"
                elif step == "bridge": own = shown = f"{V}-{V + 1}"; V += 1
                if step == "notext": text = ""; raw = f"\\vp {shown}\\vp*"
                elif step in ("published", "publishedletter"): raw = f"\\vp {shown}\\vp* {t}"
                elif step == "nospace": raw = f"\\vp {shown}\\vp*{t}"
                r.append(("v", f"{own} {raw}")); a.append([str(C), shown, text]); b.append([str(C), own, raw]); c.append([str(C), own, text])
            yield (r,) + tuple([(x[0], x[1], norm(x[2])) for x in y] for y in (a, b, c))

def norm(s): return " ".join(s.split())

def verses(raw):
    """The reference: [(C, V, text)] from the raw lines; text before the first verse of a chapter comes with V = "0"."""
    out, C, inverse = [], None, False
    for m, t in U.expected(raw):
        if m == "c": C, inverse = t, False
        elif m == "v": out.append([C, t, ""]); inverse = True
        elif m in ("v~", "p~") and C:
            if not inverse and (not out or out[-1][:2] != [C, "0"]): out.append([C, "0", ""])
            out[-1][2] += " " + t
    return [(c, v, norm(t)) for c, v, t in out]

# ---- independent readers of each exported format: folder -> {code: [(C, V, text)]}
def read_text(folder, books):
    res = {}
    for code in books:
        a = (folder / f"BOS-BibleWriter-{code}.txt").read_text("utf-8")
        b = (folder / "Without_ByteOrderMarker" / f"BOS-BibleWriter-{code}.txt").read_text("utf-8")
        if a != "\ufeff" + b: return "the texts with and without the byte-order mark differ"
        out, C = [], None
        for line in b.split("\n"):
            if re.fullmatch(r"Chapter \d+.*", line): C = line.split()[1]
            elif C and line and re.match(r"\d", line): v, _, t = line.partition(" "); out.append((C, v, norm(t)))
            elif C and line.strip(): out.append((C, "0", norm(line)))
        res[code] = out
    return res

def read_forge(folder, books):
    res = {}
    for code in books:
        name = FORGE.get(code, code)
        text = (folder / "Forge" / f"BOS-BibleWriter-{name}.txt").read_text("utf-8")
        res[code] = dollars(text, {name: code}).get(code, [])
    return res

def dollars(text, names):
    res, cur = {}, None
    for line in text.lstrip("\ufeff").split("\n"):
        if line.startswith(";") or not line.strip(): continue
        if line.startswith("$$ "):
            name, _, cv = line[3:].rpartition(" ")
            C, _, V = cv.partition(":")
            cur = [C, V, ""]; res.setdefault(names.get(name, name), []).append(cur)
        elif cur is None: res.setdefault("?", []).append(["?", "?", line])
        else: cur[2] += " " + line
    return {k: [(c, v, norm(t.replace("¶", " "))) for c, v, t in r] for k, r in res.items()}

def read_ss(folder, books): return dollars((folder / "Bible.txt").read_text("utf-8"), {SSE[c]: c for c in books})

def read_drupal(folder, books):
    res, on, names = {}, False, {G.loadedBibleBooksCodes.getDrupalBibleAbbreviation(c).upper(): c for c in books}
    for line in (folder / "Bible.txt").read_text("utf-8").split("\n"):
        if line == "*Context": on = True
        elif on and line and line[0] != "#":
            b, C, V, mark, t = line.split("|", 4)
            res.setdefault(names.get(b, b), []).append((C, V, norm(t.replace("<", "").replace(">", ""))))   # added words stand in angle brackets
    return res

def read_opensong(folder, books):
    res = {}
    root = ET.parse(folder / "Bible.osong").getroot()
    for b, code in itertools.zip_longest(root.findall("b"), books):
        if b is None: continue
        res[code] = [(c.get("n"), v.get("n"), norm("".join(v.itertext()).replace("- - -", ""))) for c in b.findall("c") for v in c.findall("v")]
    return res

def read_bcv(folder, books):
    res = {}
    for code in books:
        out = []
        listed = re.search(r"CVList = (.*)", (folder / code / f"{code}__BookMetadata.txt").read_text("utf-8").lstrip("\ufeff")).group(1)
        for cv in eval(listed, {}):
            if len(cv) == 1: continue
            C, V = cv
            p = folder / code / f"{code}_C{C}V{V}.txt"
            if not p.exists(): out.append((C, V, "no file")); continue
            cur = [C, V, ""] if V == "0" else None
            if cur: out.append(cur)
            for line in p.read_text("utf-8").lstrip("\ufeff").split("\n"):
                if line.startswith("\\v=<<"): continue              # the logical verse start in front of a heading
                m, _, t = line.partition("=")
                m = m.lstrip("\\").partition("<<")[0]
                if m == "v": cur = [C, t, ""]; out.append(cur)
                elif m in ("v~", "p~") and cur: cur[2] += " " + t
                if m == "v" and t != V: cur[1] = f"{t} in the file of {V}"
        res[code] = [(c, v, norm(t)) for c, v, t in out if v != "0" or t]
        files = {p.name for p in (folder / code).iterdir()} - {f"{code}__BookMetadata.txt", f"{code}__Intro.txt", f"{code}_C0.txt"}
        if files != {f"{code}_C{cv[0]}V{cv[1]}.txt" for cv in eval(listed, {}) if len(cv) == 2}: return "the files and the CVList of the book differ"
    return res

FORMATS = {"Text": read_text, "VPL": read_forge, "SwordSearcher": read_ss, "DrupalBible": read_drupal, "OpenSongXML": read_opensong, "BOSBCV": read_bcv}

def wanted(fmt, vs):
    """What the format is to hold: text before the first verse of a chapter stands there by itself, as verse 0, or at the start of that verse (formats without verse 0)."""
    if fmt == "DrupalBible": vs = [x for x in vs if x[2]]; vs = [(c, re.match(r"\d*", v).group(0), t) for c, v, t in vs if v != "0"]
    if fmt in ("VPL", "SwordSearcher", "OpenSongXML"):
        out, lead = [], {}
        for c, v, t in vs:
            if v == "0": lead[c] = t
            else: out.append((c, v, norm(lead.pop(c, "") + " " + t)))
        vs = [x for x in out if x[2]] if fmt == "OpenSongXML" else out
    return vs

def zipped(folder, fmt):
    """The archive holds every exported file, under its name."""
    if fmt == "Text": return zipped2(folder, "AllTextFiles.zip", False) and zipped2(folder / "Without_ByteOrderMarker", "AllTextFiles.zip", False)
    if fmt == "VPL": return zipped2(folder / "Forge", "AllVPLTextFiles.zip", False)
    if fmt == "BOSBCV": return zipped2(folder, "AllFiles.zip", True)
    return zipped2(folder, "Bible.osong.zip" if fmt == "OpenSongXML" else "Bible.txt.zip", False)

def zipped2(folder, name, deep):
    files = {str(p.relative_to(folder)): p.read_bytes() for p in (folder.rglob("*") if deep else folder.iterdir()) if p.is_file() and p.suffix != ".zip"}
    with zipfile.ZipFile(folder / name) as z: return {n: z.read(n) for n in z.namelist() if not n.endswith("/")} == files and bool(files)

def export(ctx, books, want, key0):
    with ctx.case(key0, seconds=200):
        B = U02.bible({c: r for c, r in books.items()})
        for fmt, reader in FORMATS.items():
            folder = ctx.scratch("out")
            with ctx.case(f"{fmt} {key0}"):
                if not ctx.expect(getattr(B, "to" + fmt)(folder) in (True, None), f"{fmt} {key0}", "the export did not report success"): continue
                ctx.expect(zipped(folder, fmt), f"{fmt} {key0}", "the zip file does not hold the exported files under their names")
                got = reader(folder, list(books))
                if not ctx.expect(isinstance(got, dict), f"{fmt} {key0}", got): continue
                extra = set(got) - set(books)
                ctx.expect(not extra, f"{fmt} {key0}", lambda: f"exported books {extra}")
                for code, raw in books.items():
                    ctx.trace(); ctx.step(len(raw))
                    g, w = got.get(code, []), wanted(fmt, want[code][1 if fmt == "BOSBCV" else -1 if fmt == "VPL" and len(want[code]) == 3 else 0])
                    ctx.state(fmt, tuple(x[:2] for x in g))
                    if fmt in ("DrupalBible", "OpenSongXML"): g = [x for x in g if x[2] not in ("", "- - -") and not (fmt == "DrupalBible" and x[1] == "0" and x in want[code][0])]
                    ctx.equal(g, w, f"{fmt} {code}: {U.show(raw)}", "verses", raw)
    ctx.sample(key0)

def run(ctx, shard):
    if shard[0] == "doc":
        docs = (U.raw(h, t) for h, t in U.expand(shard[1:], "quick" if shard[1] == "body" else ctx.tier))
        docs = ((r, verses(r), verses(r)) for r in docs)
    elif shard[0] == "published": docs = published(ctx, shard[1])
    else:
        line, i = shard[1:]
        docs = inline(ctx, line, i)
    for batch in U02.batches(docs, len(CODES)):
        books = {c: x[0] for c, x in zip(CODES, batch)}
        export(ctx, books, {c: x[1:] for c, x in zip(CODES, batch)}, f"{len(books)} books from {U.show(batch[0][0])}")
        if ctx.full: return

def inline(ctx, line, i):
    items = ITEMS
    for k in range(0, 2 if ctx.quick else 3):
        for rest in itertools.product(items if k < 2 else items[::2], repeat=k):
            seq = (items[i],) + rest
            src, clean = " ".join(x[1] for x in seq), norm(" ".join(x[3] for x in seq))
            head = [("id", "GEN"), ("h", "Gen"), ("c", "1"), ("p", "")]
            if line == "v": r, pre = [("v", "1 " + src), ("v", "2 end")], ""
            else: r, pre = [("v", "1 start"), (line, src), ("v", "2 end")], "start "
            yield head + r, [("1", "1", norm(pre + clean)), ("1", "2", "end")], [("1", "1", norm(pre + src)), ("1", "2", "end")]
