"""I01: the chapter/verse index of a processed book, and its context lists."""
import lib
from checks import usfmdocs as U

PROP = dict(
    title="The chapter/verse index of a book locates every line exactly once",
    statement="The index of a processed book divides its entries without gap or overlap: each line before the first chapter is entry (-1, n), each chapter has an entry (C, 0) for what precedes its first verse, "
              "and each verse, verse bridge or verse part has one entry which holds its text, its number and the headings and paragraph markers which directly precede it. "
              "The context list of an entry names exactly the regions (chapters, chapter, section, paragraph, list ...) which are open where the entry begins, outermost first.",
    over=["inputs"],
    qtext="all sequences of USFM lines up to the bound, in chapter/verse books and in books without chapters",
    why="All access to a verse goes through this index and it is built by walking back over whatever precedes the verse; a shifted or merged entry shows wrong text for a reference, and no test builds one.",
    files=["BibleOrgSys/Internals/InternalBibleIndexes.py"],
    mechanism=[("InternalBibleBookCVIndex.makeBookCVIndex", "BibleOrgSys/Internals/InternalBibleIndexes.py")],
)
BOUNDS = "line sequences after \\c 1: all of <=3 (quick) / <=4 (thorough) lines from 18 kinds, 4 / 5 from 13 kinds, 5 / 6 from 8 kinds; introductions of <=3 / <=4 lines from 9 kinds x heads x bodies; chapter starts of 2 / 3 lines from 18 kinds; front matter of <=3 lines"
ASSUMPTIONS = ["chapters and verses are numbered without repetition"]

def setup(tier): lib.bos()
def shards(tier): return U.documents(tier) + [("front",)]

def run(ctx, shard):
    if shard[0] == "front":
        import itertools
        for n in range(1, 4 if ctx.quick else 5):
            for toks in itertools.product(U.INTRO, repeat=n):
                for code in ("FRT", "GLS", "BAK"):
                    for head in ("", "h"):
                        r = U.raw(head, toks)
                        key = code + " " + U.show(r)
                        with ctx.case(key):
                            b = U.build(r, code)
                            check(ctx, key, b, r)
                if ctx.full: return
        return
    for head, tokens in U.expand(shard, ctx.tier):
        r = U.raw(head, tokens)
        key = U.show(r)
        with ctx.case(key):
            check(ctx, key, U.build(r), r)
        if ctx.full: return
    ctx.sample(key)

def model(E):
    """[(key, first entry, number of entries)] and the open regions before each entry."""
    owner, C, V = [None] * len(E), "-1", None
    for j, e in enumerate(E):
        m = e.getMarker()
        if m == "c": C, V = e.getCleanText(), "0"
        elif m == "v":
            V = e.getCleanText()
            k = j - 1
            while k >= 0 and E[k].getMarker() not in ("c", "v", "v~", "p~") and E[k].getMarker()[0] != "¬":
                owner[k] = (C, V); k -= 1
        owner[j] = (C, str(j)) if C == "-1" else (C, V)
    out = []
    for j, key in enumerate(owner):
        if out and out[-1][0] == key: out[-1][2] += 1
        else: out.append([key, j, 1])
    return out

def regions(E):
    from BibleOrgSys.Internals.InternalBibleInternals import BOS_NESTING_MARKERS
    from BibleOrgSys.Internals.InternalBibleBook import OUR_HEADING_BLOCK_MARKERS
    opened, before = [], []
    for e in E:
        before.append(list(opened))
        m = e.getMarker()
        if m[0] == "¬":
            if m[1:] in opened: opened.remove(m[1:])
        elif m != "v" and (m in BOS_NESTING_MARKERS or m in OUR_HEADING_BLOCK_MARKERS): opened.append(m)
    return before

def check(ctx, key, b, r):
    E = list(b._processedLines)
    want, before = model(E), regions(E)
    ix = b._CVIndex
    got = [[k, v.getEntryIndex(), v.getEntryCount()] for k, v in ix.items()]
    ctx.step(len(want)); ctx.state(tuple(e.getMarker() for e in E), tuple(k for k, _, _ in want))
    if not ctx.equal(got, want, key, "index", r): return
    if not ctx.equal(list(ix), [k for k, _, _ in want], key, "keys", r): return
    ctx.equal(len(ix), len(want), key, "length", r)
    for k, j, n in want:
        e = ix[k]
        if not ctx.equal(e.getContextList(), before[j], key, f"context of {k}", r): return
        ctx.equal((e[0], e[1], e[2], e.getNextEntryIndex()), (j, n, before[j], j + n), key, f"entry {k}", r)
        if not ctx.expect(k in ix, key, f"{k} not found", r): return
        if k[0] != "-1":
            ms = [x.getMarker() for x in E[j:j + n]]
            want_c, want_v = (1, 0) if k[1] == "0" else (0, 1)
            ctx.equal((ms.count("c"), ms.count("v")), (want_c, want_v), key, f"chapter and verse lines in {k}", r)
