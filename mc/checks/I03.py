"""I03: fetching verses, chapters and ranges returns exactly their lines."""
import itertools
import lib
from checks import usfmdocs as U

PROP = dict(
    title="Fetching a verse, chapter or range returns exactly its lines",
    statement="Asking a book for a reference returns the lines of exactly the requested verse, chapter or book with the context of its first line: a verse inside a bridge, list or part is found unless strict, "
              "'complete' returns every entry which holds the verse once, a chapter is returned whole and alone also when neighbouring chapters are missing, and a range is its verses in order, "
              "with the chapter introductions in between, each once. What is not there is a KeyError (or nothing for a book), never other text, and fetching changes nothing.",
    over=["inputs", "configurations"],
    qtext="all books made of the listed chapter lists and verse patterns, and for each of them all references and all pairs of references up to the bound",
    why="Tests fetch a few verses of ordinary books; gaps, bridges and parts, and the ends of chapters and books, are where the look-up code takes its other branches.",
    files=["BibleOrgSys/Internals/InternalBibleIndexes.py", "BibleOrgSys/Internals/InternalBibleBook.py", "BibleOrgSys/Internals/InternalBible.py"],
    mechanism=[("getVerseEntriesWithContext, getChapterEntriesWithContext", "BibleOrgSys/Internals/InternalBibleIndexes.py"),
               ("InternalBibleBook.getContextVerseDataRange", "BibleOrgSys/Internals/InternalBibleBook.py"), ("InternalBible.getContextVerseDataRange", "BibleOrgSys/Internals/InternalBible.py")],
)
BOUNDS = ("books of 1-3 chapters from 6 lists of chapter numbers, each chapter one of 9 verse patterns (plain, gaps, bridges, parts, lists, mixed), with and without section headings; references: all (C,V) with 7-9 chapters and 14 verse numbers, "
          "strict/lenient x complete or not; ranges: all ordered pairs of plain references; ranges over 2-3 books: all pairs of ends")
ASSUMPTIONS = ["verse numbers do not repeat within a chapter"]

PATTERNS = [("1", "2", "3"), ("1", "3", "4"), ("1", "2-3", "4"), ("1a", "1b", "2"), ("1-2a", "2b", "3"), ("1", "2", "3-5"), ("1", "2,4", "3"), ("2", "3"), ("1-3",)]
CHAPTERS = [(1,), (1, 2), (1, 3), (2, 3), (10, 11), (0, 1)]
CHAPTERS3 = [(1, 2, 3), (1, 2, 4), (1, 3, 4)]
QV = ["0", "1", "2", "3", "4", "5", "6", "1a", "1b", "2a", "2b", "2-3", "1-3", "3-5", "2,4"]

def setup(tier): lib.bos()
def shards(tier):
    res = []
    for cs in CHAPTERS:
        for ps in itertools.product(range(len(PATTERNS)), repeat=len(cs)): res.append(("book", cs, ps))
    for cs in CHAPTERS3:
        for ps in itertools.product((0, 2, 3, 6) if tier == "quick" else range(len(PATTERNS)), repeat=3): res.append(("book", cs, ps))
    for a in range(len(PATTERNS)):
        for b in range(len(PATTERNS)): res.append(("bible", a, b))
    return res

def book(code, cs, ps, heads):
    raw = [("id", code + " test"), ("h", code), ("mt1", "Title " + code)] + ([("is1", "Intro"), ("ip", "Intro text")] if heads else [])
    for c, p in zip(cs, ps):
        raw.append(("c", str(c)))
        if heads: raw += [("s1", f"Head {c}")]
        raw.append(("p", ""))
        for n, v in enumerate(PATTERNS[p]):
            if heads and n == 1: raw += [("s1", f"Head {c}.{n}"), ("p", "")]
            raw.append(("v", f"{v} text{code}{c}x{v}"))
            if n == 0: raw.append(("q1", f"more{code}{c}x{v}"))
    return raw, U.build(raw, code)

def run(ctx, shard):
    if shard[0] == "bible": return bible(ctx, shard[1], shard[2])
    for heads in (False, True):
        raw, b = book("GEN", shard[1], shard[2], heads)
        queries(ctx, U.show(raw), raw, b, shard)
        if ctx.full: return

def lead(v):
    n = ""
    for ch in v:
        if not ch.isdigit(): break
        n += ch
    return int(n)

def holds(entry, n):
    """Does this bridge, list or part (not a plain number) hold verse n?"""
    if "-" in entry: a, b = entry.split("-"); return lead(a) <= n <= lead(b)
    if "," in entry: return n in [lead(x) for x in entry.split(",")]
    return not entry.isdigit() and lead(entry) == n

def found(keys, C, V, strict, complete):
    """The keys whose entries make the answer, or None."""
    same = [v for c, v in keys if c == C]
    n = lead(V)
    out = [v for v in same if holds(v, n)] if complete and C != "-1" else []
    if V in same: return out + ([V] if V not in out else [])
    if strict or C == "-1": return None
    if not V.isdigit() and str(n) in same: out.append(str(n))
    if not out and not complete:
        out = [v for v in same if holds(v, n)][:1]
    return out or None

def sig(entries): return [(e.getMarker(), e.getCleanText(), id(e)) for e in entries]

def queries(ctx, name, raw, b, shard):
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey
    E = list(b._processedLines)
    index = [(k, v.getEntryIndex(), v.getEntryCount(), list(v.getContextList())) for k, v in b._CVIndex.items()]
    where = {k: (j, n, ctxt) for k, j, n, ctxt in index}
    keys = list(where)
    whole = sig(E)
    chapters = list(dict.fromkeys(c for c, _ in keys))
    allC = ["-1", "0", "1", "2", "3", "4", "9", "10", "11", "12"]
    def part(k): j, n, _ = where[k]; return whole[j:j + n]
    def ask(f):
        try: return f()
        except KeyError: return None
    for C in allC:
        key = f"{name} chapter {C}"
        with ctx.case(key):
            ctx.step(); ctx.state(shard, C, "chapter")
            got = ask(lambda: b.getContextVerseData(("GEN", C)))
            if C not in chapters: ctx.expect(got is None, key, lambda: f"returned {sig(got[0])} for a missing chapter")
            elif ctx.expect(got is not None, key, "KeyError"):
                want = [x for k in keys if k[0] == C for x in part(k)]
                ctx.equal(sig(got[0]), want, key, "chapter")
                ctx.equal(got[1], where[(C, "0")][2], key, "context")
                ctx.equal(sig(b._CVIndex.getChapterEntries(C)), want, key, "chapter entries")
        for V in QV:
            for strict in (False, True):
                for complete in (False, True):
                    key = f"{name} get {C}:{V} strict={strict} complete={complete}"
                    with ctx.case(key):
                        ctx.step()
                        want = found(keys, C, V, strict, complete)
                        ctx.state(shard, C, V, strict, complete, tuple(want or ()))
                        got = ask(lambda: b.getContextVerseData(("GEN", C, V), strict=strict, complete=complete))
                        if want is None: ctx.expect(got is None, key, lambda: f"returned {sig(got[0])} for a missing verse")
                        elif ctx.expect(got is not None, key, "KeyError"):
                            ctx.equal(sig(got[0]), [x for v in want for x in part((C, v))], key, "verse")
                            ctx.equal(got[1], where[(C, want[0])][2], key, "context")
                            if not complete and C != "-1" and V.isdigit():
                                k = SimpleVerseKey("GEN", C, V)
                                ctx.equal(sig(b.getContextVerseData(k, strict=strict)[0]), sig(got[0]), key, "by verse key")
            key = f"{name} entries {C}:{V}"
            with ctx.case(key):
                ctx.step()
                got = ask(lambda: b._CVIndex.getVerseEntries((C, V)))
                ctx.equal(None if got is None else sig(got), part((C, V)) if (C, V) in where else None, key, "entries")
                got = ask(lambda: b._CVIndex.getVerseEntries((C, V), strict=False))
                w = (C, V) if (C, V) in where else next((k for k in keys if k[0] == C and k[1].startswith(V + "-")), None)
                ctx.equal(None if got is None else sig(got), part(w) if w else None, key, "entries (bridges too)")
            if ctx.full: return
    with ctx.case(name + " book"):
        got = b.getContextVerseData(("GEN",))
        ctx.equal((sig(got[0]), got[1]), (whole, []), name + " book", "book")
    # ranges
    plain = [k for k in keys if k[1].isdigit() and k[0] != "-1"] + [("-1", "0"), ("-1", "2")] + [(chapters[-1], "9"), ("12", "1")]
    for a in plain:
        for z in plain:
            if (a[0] == "-1") != (z[0] == "-1") or (int(a[0]), int(a[1])) > (int(z[0]), int(z[1])): continue
            for strict in (True, False):
                key = f"{name} range {a[0]}:{a[1]}-{z[0]}:{z[1]} strict={strict}"
                with ctx.case(key):
                    ctx.step()
                    want = range_model(keys, a, z, strict)
                    if want == "?": continue
                    ctx.state(shard, a, z, strict, tuple(want or ()))
                    got = ask(lambda: b.getContextVerseDataRange(("GEN",) + a, ("GEN",) + z, strict=strict))
                    if want is None: ctx.expect(got is None, key, lambda: f"returned {sig(got[0])}")
                    elif ctx.expect(got is not None, key, "KeyError"):
                        ctx.equal(sig(got[0]), [x for k in want for x in part(k)], key, "range")
                        ctx.equal(got[1], where[a][2], key, "context")
        if ctx.full: return
    ctx.equal(sig(b._processedLines), whole, name, "the book after the queries")
    ctx.equal([(k, v.getEntryIndex(), v.getEntryCount(), v.getContextList()) for k, v in b._CVIndex.items()], index, name, "the index after the queries")

def lastnum(v): return int(v.split("-")[-1].split(",")[-1].rstrip("ab"))

def range_model(keys, a, z, strict):
    """The keys of an inclusive range: every verse number must be the start of an entry, else KeyError (strict), or it is skipped."""
    if a not in keys: return None
    if a[0] == "-1": return [k for k in keys if k[0] == "-1" and int(a[1]) <= int(k[1]) <= int(z[1])]
    last = {}
    for c, v in keys: last[c] = lastnum(v)                      # in the order of the book
    out, C, V = [a], int(a[0]), int(a[1])
    while True:
        V += 1
        if V > last.get(str(C), -1) and a[0] != z[0] and C < int(z[0]):
            if (str(C + 1), "0") not in keys: return None
            C, V = C + 1, 0
            out.append((str(C), "0")); continue
        if C > int(z[0]) or (C == int(z[0]) and V > int(z[1])): return out
        hit = (str(C), str(V)) if (str(C), str(V)) in keys else next((k for k in keys if k[0] == str(C) and k[1].startswith(f"{V}-")), None)
        if hit: out.append(hit); continue
        if strict: return None
        if a[0] != z[0]:
            if V > last[str(C)]: return None
            return out                                          # 'returns whatever we have'

def bible(ctx, pa, pb):
    """Ranges over the end of a book."""
    from BibleOrgSys.Internals.InternalBible import InternalBible
    B = InternalBible()
    B.name = B.abbreviation = "Test"
    codes = ["GEN", "EXO", "LEV"]
    books = {}
    for code, cs, ps in (("GEN", (1, 2), (0, pa)), ("EXO", (1,), (0,)), ("LEV", (1, 2), (pb, 0))):
        books[code] = book(code, cs, ps, False)[1]
        B.stashBook(books[code])
    keys = {c: list(books[c]._CVIndex) for c in codes}
    plain = {c: [k for k in keys[c] if k[0] != "-1" and k[1].isdigit() and k[1] != "0"] for c in codes}
    for i, ca in enumerate(codes):
        for cz in codes[i:]:
            for a in plain[ca]:
                for z in plain[cz]:
                    key = f"{PATTERNS[pa]} {PATTERNS[pb]} range {ca} {a[0]}:{a[1]} - {cz} {z[0]}:{z[1]}"
                    if ca == cz and a > z: continue
                    for strict in (True, False):
                        with ctx.case(key):
                            ctx.step()
                            names = codes[i:codes.index(cz) + 1]
                            want = []
                            for c in names:
                                lastC = [k for k in keys[c] if k[0] == keys[c][-1][0]]
                                lastk = (lastC[-1][0], str(lastnum(lastC[-1][1])))
                                first = a if c == ca else ("1", "1")
                                final = z if c == cz else lastk
                                w = range_model(keys[c], first, final, strict)
                                if w is None: want = None; break
                                want += [(c, k) for k in w]
                            ctx.state(pa, pb, ca, a, cz, z, strict)
                            try: got = B.getContextVerseDataRange((ca,) + a, (cz,) + z, strict=strict)
                            except KeyError: got = None
                            if want is None: ctx.expect(got is None, key, lambda: f"returned {sig(got[0])}")
                            elif ctx.expect(got is not None, key, "KeyError"):
                                ctx.equal(sig(got[0]), [x for c, k in want for x in sig(books[c]._CVIndex.getVerseEntries(k))], key, "range")
                                ctx.equal(got[1], books[ca]._CVIndex[a].getContextList(), key, "context")
                    if ctx.full: return
    with ctx.case("missing book"):
        ctx.equal(B.getContextVerseData(("MAT", "1", "1")), None, "missing book", "result")
        ctx.equal(B.getContextVerseDataRange(("GEN", "1", "1"), ("MAT", "1", "1")), None, "missing book", "range")
        for c in codes:
            for k in keys[c]:
                ctx.step()
                ctx.equal([sig(x) if i == 0 else x for i, x in enumerate(B.getContextVerseData((c,) + k))], [sig(x) if i == 0 else x for i, x in enumerate(books[c].getContextVerseData((c,) + k))], f"{c} {k}", "verse of a Bible")
                ctx.equal(sig(B.getVerseDataList((c,) + k)), sig(books[c].getContextVerseData((c,) + k)[0]), f"{c} {k}", "verse data list")
