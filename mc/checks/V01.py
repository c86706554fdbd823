"""V01: the versification and the added units which are found in a book."""
import itertools
import lib
from checks import usfmdocs as U

PROP = dict(
    title="The versification and layout discovered in a book are those of its text",
    statement="For every sequence of chapters and verse numbers in a book, the versification lists each chapter with its last verse number (and the introduction with its last line), "
              "and exactly the verses which are missing inside a chapter, the combined verses and the verses out of order, each at its place; the numbers of chapters and verses agree with it; "
              "and the added units list every paragraph, poetry line (with its level) and heading (with its text) at the chapter and verse where it stands.",
    over=["inputs"],
    qtext="all sequences of verse numbers, bridges, lists and parts up to the bound, over one to three chapters, and all sequences of layout lines up to the bound",
    why="Versification checks, exports and book statistics rely on these lists; gaps after bridges, lists and parts take different branches and are never tested.",
    files=["BibleOrgSys/Internals/InternalBibleBook.py", "BibleOrgSys/Internals/InternalBible.py"],
    mechanism=[("InternalBibleBook.getVersification", "BibleOrgSys/Internals/InternalBibleBook.py"), ("InternalBibleBook.getAddedUnits", "BibleOrgSys/Internals/InternalBibleBook.py")],
)
BOUNDS = "all sequences of <=4 (quick) / <=5 (thorough) verse fields from 11 kinds in one chapter; <=2 fields in each of two or three chapters with 7 chapter number lists; all layouts of <=4 / <=5 lines from 10 kinds"
ASSUMPTIONS = []
VERSES = ["1", "2", "3", "4", "6", "1-2", "2-3", "3-5", "2,3", "2a", "2b"]
LAYOUT = ["v", "p", "pt", "q1", "q2t", "s1", "s2", "d", "r", "c"]

def setup(tier): lib.bos()
def shards(tier):
    return [("one", a, b) for a in VERSES for b in VERSES] + [("many", cs) for cs in ((1, 2), (1, 3), (2, 3), (0, 1), (1, 2, 3), (1, 4), (10, 11, 12))] + [("layout", a, b) for a in LAYOUT for b in LAYOUT]

def run(ctx, shard):
    if shard[0] == "one":
        top = 2 if ctx.quick else 3
        for k in range(0, top + 1):
            for rest in itertools.product(VERSES, repeat=k):
                verses(ctx, [(1, shard[1:3] + rest)])
            if ctx.full: return
        if shard[1] == shard[2]: verses(ctx, [(1, (shard[1],))]); verses(ctx, [(1, ())])
    elif shard[0] == "many":
        few = (["1", "2", "3", "6", "1-2", "2,3", "2b"] if ctx.quick else VERSES) if len(shard[1]) == 2 else ["1", "2", "3", "1-2", "2b"]
        pats = [()] + [(a,) for a in few] + [(a, b) for a in few for b in few]
        if len(shard[1]) == 3 and ctx.quick: pats = pats[:16]
        for ps in itertools.product(pats, repeat=len(shard[1])):
            verses(ctx, list(zip(shard[1], ps)))
            if ctx.full: return
    else:
        for k in range(0, 3 if ctx.quick else 4):
            for rest in itertools.product(LAYOUT, repeat=k):
                layout(ctx, ("c",) + shard[1:3] + rest)
            if ctx.full: return

def model(chapters, introlast):
    num, omitted, combined, reordered = [("-1", str(introlast))], [], [], []
    for c, vs in chapters:
        c, last = str(c), "0"
        for v in vs:
            v = v.rstrip("ab")
            bits = v.replace(",", "-").split("-")
            if len(bits) > 1: combined.append((c, v))
            n = int(bits[0])
            if n <= int(last): reordered.append((c, last, v))
            else: omitted += [(c, str(x)) for x in range(int(last) + 1, n)]
            last = bits[-1]
        num.append((c, last))
    return num, omitted, combined, reordered

def verses(ctx, chapters):
    from BibleOrgSys.Internals.InternalBible import InternalBible
    raw = U.HEAD["h"][:]
    for c, vs in chapters:
        raw += [("c", str(c)), ("p", "")] + [("v", f"{v} text") for v in vs]
    key = U.show(raw[4:])
    with ctx.case(key):
        b = U.build(raw)
        first = [e.getMarker() for e in b._processedLines].index("c")
        want = model(chapters, first - 1)
        ctx.step(sum(len(v) for _, v in chapters)); ctx.state(tuple(map(tuple, want)))
        if not ctx.equal(b.getVersification(), want, key, "versification", raw): return
        B = InternalBible(); B.name = B.abbreviation = "Test"
        B.stashBook(b)
        ctx.equal(B.getVersification(), ({"GEN": want[0]}, *({"GEN": x} if x else {} for x in want[1:])), key, "versification of the Bible", raw)
        last = dict(want[0])
        ctx.equal(B.getNumChapters("GEN"), chapters[-1][0], key, "chapters", raw)
        for C in range(-1, 14):
            w = int(last[str(C)]) if str(C) in last else None
            ctx.equal((B.getNumVerses("GEN", str(C)), b.getNumVerses(C)), (w, w), key, f"verses in {C}", raw)
        ctx.equal((B.getNumChapters("EXO"), B.getNumVerses("EXO", "1")), (None, None), key, "a book which is not there")

def layout(ctx, tokens):
    raw = U.raw("h", tokens)
    key = U.show(raw[4:])
    with ctx.case(key):
        b = U.build(raw)
        ctx.step(len(raw))
        C = V = "0"
        paras, qs, heads = [], [], []
        for m, t in raw:
            m = U.STANDARD.get(m, m)
            if m == "c": C, V = t, "0"
            elif m == "v": V = t.split()[0]
            elif m == "p":
                n = sum(1 for x in paras if x[:2] == (C, V))
                paras.append((C, V) if n == 0 else (C, V, chr(96 + n)))
            elif m in ("q1", "q2"): qs.append(((C, V), int(m[1])))
            elif m in ("s1", "s2", "d", "r", "qa"): heads.append(((C, V), m, t))
        ctx.state(tuple(paras), tuple(qs), tuple(heads))
        got = b.getAddedUnits()
        ctx.equal(got[0], paras, key, "paragraphs", raw)
        ctx.equal([(ref[:2], n) for ref, n in got[1]], qs, key, "poetry lines", raw)
        ctx.equal(got[2], heads, key, "headings", raw)
