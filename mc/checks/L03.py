"""L03: the nesting markers which are added to a processed book are balanced and enclose the right text."""
import lib
from checks import usfmdocs as U

PROP = dict(
    title="The nesting markers of a processed book are balanced",
    statement="In the processed lines of a book every region which is opened (headers, introduction, main titles, chapters, chapter, section, paragraph, list, verse) is opened at most once at a time "
              "and is closed by exactly one end marker (¬...) before the end of the book; the end markers of chapters and verses carry the number which they close; all text of a verse stands inside its verse, "
              "inside its chapter and inside its paragraph; two paragraphs are never open together; and (outside lists) a verse which has no more text is closed before the next heading or paragraph.",
    over=["inputs"],
    qtext="all sequences of USFM lines up to the bound",
    why="Exporters and the context index walk these markers, and they are inserted by look-ahead and look-behind rules whose interaction depends on the exact sequence of markers; no test covers them.",
    files=["BibleOrgSys/Internals/InternalBibleBook.py"],
    mechanism=[("InternalBibleBook.__addNestingMarkers", "BibleOrgSys/Internals/InternalBibleBook.py"), ("BOS_NESTING_MARKERS", "BibleOrgSys/Internals/InternalBibleInternals.py")],
)
BOUNDS = "line sequences after \\c 1: all of <=3 (quick) / <=4 (thorough) lines from 18 kinds, 4 / 5 from 13 kinds, 5 / 6 from 8 kinds; introductions of <=3 / <=4 lines from 9 kinds x heads x bodies; chapter starts of 2 / 3 lines from 18 kinds"
ASSUMPTIONS = ["the monitor follows the open regions over the entries of each processed book"]
PARA = set("p pc pr m mi pm pmo pmc pmr cls q q1 q2 q3 li li1 li2 pi pi1 iq1 io1 ili".split()) - {"iq1", "io1", "ili"}
BREAK = PARA | {"s1", "ms1", "b", "nb"}

def setup(tier): lib.bos()
def shards(tier): return U.documents(tier)

def run(ctx, shard):
    for head, tokens in U.expand(shard, ctx.tier):
        r = U.raw(head, tokens)
        key = U.show(r)
        with ctx.case(key):
            b = U.build(r)
            for err in monitor(ctx, list(b._processedLines)): ctx.violation(key, err + " in " + lib.short([(e.getMarker(), e.getCleanText()) for e in b._processedLines], 1500), r)
        if ctx.full: return
    ctx.sample(key)

def monitor(ctx, E):
    from BibleOrgSys.Internals.InternalBibleInternals import BOS_NESTING_MARKERS
    opened, number, errs = [], {}, []
    lastpara = lastv = lastc = None
    for ix, e in enumerate(E):
        m, t = e.getMarker(), e.getCleanText()
        ctx.step(); ctx.state(tuple(opened), m)
        if m in BREAK and "v" in opened and "list" not in opened:
            for f in E[ix + 1:]:
                if f.getMarker() in ("v", "c"): errs.append(f"verse {number['v']} still open at the following {m}"); break
                if f.getMarker() in ("v~", "p~"): break
        if m[0] == "¬":
            k = m[1:]
            if k not in opened: errs.append(f"{m} closes what is not open"); continue
            if k in ("c", "v") and number[k] != t: errs.append(f"{m} says {t!r} not {number[k]!r}")
            opened.remove(k)
            continue
        if m in ("c", "chapters") and "v" in opened: errs.append(f"verse {number['v']} still open at {m} {t}")
        if m == "v" and "c" not in opened: errs.append(f"verse {t} outside a chapter")
        if m in BOS_NESTING_MARKERS:
            if m in opened: errs.append(f"{m} {t} opened while open")
            opened.append(m)
            if m in ("c", "v"): number[m] = t
            if m == "c": lastv, lastc = None, t
            if m == "v": lastv = t
            if m in PARA:
                lastpara = m
                if sum(x in PARA for x in opened) > 1: errs.append(f"two paragraphs open: {opened}")
        elif m in ("nb", "b"): lastpara = None
        elif m in ("v~", "p~"):
            if lastv and "v" not in opened: errs.append(f"text {t!r} outside its verse")
            if lastc and ("c" not in opened or "chapters" not in opened): errs.append(f"text {t!r} outside its chapter")
            if m == "p~" and lastpara and lastpara not in opened: errs.append(f"text {t!r} outside its paragraph")
        elif m == "s1" and lastc and "chapters" not in opened: errs.append("section outside the chapters")
    if opened: errs.append(f"left open: {opened}")
    return errs
