"""I05: the section index of a book divides all its text into its sections."""
import itertools
import lib
from checks import usfmdocs as U

PROP = dict(
    title="The section index divides all the text of a book into its sections",
    statement="The sections in the section index of a book stand in order, never overlap, start with the headers and end with the last line; every verse number, every piece of text and every heading is in exactly one section; "
              "every main section heading (ms1, s1) starts the section which carries its name, and no section has a main heading after its first text (books like Psalms have a section for every chapter); "
              "the key of a section is the chapter and verse with which it starts (with a letter when it starts inside a verse), its end is the last verse in it; "
              "and fetching a section gives exactly its lines.",
    over=["inputs"],
    qtext="all sequences of up to 3 (quick) / 4 (thorough) blocks of chapters, sections, headings, bridges and headings in the middle of a verse, in three kinds of books",
    why="Programs which present Bibles by section fetch the text through this index only, so what it loses is lost; it is built by look-back rules over combinations which no test samples.",
    files=["BibleOrgSys/Internals/InternalBibleIndexes.py", "BibleOrgSys/Internals/InternalBibleBook.py", "BibleOrgSys/Bible.py"],
    mechanism=[("InternalBibleBookSectionIndex.makeBookSectionIndex", "BibleOrgSys/Internals/InternalBibleIndexes.py"), ("InternalBibleBookSectionIndex.getSectionEntries", "BibleOrgSys/Internals/InternalBibleIndexes.py")],
)
BOUNDS = "book starts of 6 kinds (two with an introduction) followed by all sequences of <=3 / <=4 blocks from 13 kinds, each in Genesis and Psalms (and Proverbs up to one block fewer)"
ASSUMPTIONS = ["the line with the number of a first chapter which a heading follows at once may be outside the sections (continuing books)"]
BL = {"V": ("v",), "S": ("s1", "p", "v"), "M": ("ms1", "s1", "p", "v"), "C": ("c", "p", "v"), "CS": ("c", "s1", "p", "v"), "MC": ("ms1", "c", "s1", "p", "v"), "CMS": ("c", "ms1", "s1", "p", "v"),
      "CM": ("c", "ms1", "p", "v"), "SH": ("s1", "q1t"), "VB": ("vb",), "S2": ("s2", "p", "v"), "SR": ("s1", "r", "p", "v"), "SQ": ("s1", "q1", "v", "q2t")}
MORE = list(BL)
BL |= {"IC": ("is1", "ip", "is1", "ip", "c", "p", "v"), "IS": ("ip", "is1", "ip", "iot", "io1", "c", "s1", "p", "v")}
START = ["IC", "IS", "C", "CS", "CMS", "MC"]
CONTENT = {"v", "v~", "p~", "s1", "s2", "ms1", "is1", "ip", "r", "p", "q1", "q2", "id", "h", "toc1", "mt1"}

def setup(tier): lib.bos()
def shards(tier): return [(code, s, b) for code in ("GEN", "PSA", "PRO") for s in START for b in MORE]

def run(ctx, shard):
    code, first, second = shard
    n = (2 if ctx.quick else 3) - (code == "PRO")
    if second == "V": book(ctx, code, (first,))
    for k in range(0, n + 1):
        for rest in itertools.product(MORE, repeat=k):
            book(ctx, code, (first, second) + rest)
        if ctx.full: return

def book(ctx, code, blocks):
    from BibleOrgSys.Bible import Bible
    from BibleOrgSys.Internals.InternalBibleBook import InternalBibleBook
    raw = U.raw("h", sum((BL[x] for x in blocks), ()))
    key = f"{code} {' '.join(blocks)}"
    with ctx.case(key):
        B = Bible(); B.name = B.abbreviation = "Test"
        b = InternalBibleBook(B, code)
        b.objectNameString, b.objectTypeString, b.sourceFilepath = "Test book object", "USFM3", "nowhere"
        for m, t in raw: b.addLine(m, t)
        b.processLines()
        B.stashBook(b); B.discover(); b._makeBookSectionIndex()
        E = [(e.getMarker(), e.getCleanText()) for e in b._processedLines]
        sec = list(b._SectionIndex.items())
        ctx.step(len(E)); ctx.state(tuple((k, v.startIx, v.endIx) for k, v in sec))
        def bad(what): ctx.violation(key, f"{what}: {lib.short([(k, str(v)) for k, v in sec], 900)} for {lib.short(E, 1500)}", raw)
        if len(b._SectionIndex) != len(sec) or [k for k in b._SectionIndex] != [k for k, _ in sec] or any(b._SectionIndex[k] is not v or k not in b._SectionIndex for k, v in sec): return bad("the index and its items differ")
        pos, missed = 0, []
        for k, v in sec:
            if v.startIx < pos or v.endIx < v.startIx: return bad(f"section {k} overlaps or is out of order")
            missed += range(pos, v.startIx); pos = v.endIx + 1
        missed += range(pos, len(E))
        if sec[0][0] != ("-1", "0") or sec[0][1].startIx or pos != len(E): return bad("the sections do not run from the first to the last line")
        lost = [E[i] for i in missed if E[i][0] in CONTENT]
        if lost: return bad(f"lines lost {lost}")
        C = V = None
        missedC = {i: t for i in missed for m, t in [E[i]] if m == "c"}
        for k, v in sec:
            for i in sorted(missedC):
                if i < v.startIx: C, V = missedC.pop(i), None
            lines = E[v.startIx:v.endIx + 1]
            got = b._SectionIndex.getSectionEntries(k)
            if [(e.getMarker(), e.getCleanText()) for e in got] != lines or v.getEntryCount() != len(lines) or [(e.getMarker(), e.getCleanText()) for e in b._SectionIndex.getSectionEntriesWithContext(k)[0]] != lines:
                return bad(f"section {k} gives {[(e.getMarker(), e.getCleanText()) for e in got]}")
            name, reason = v.getSectionNameReason()
            startC, startV, text, verses, chapters = C, V, False, [], 0
            for m, t in lines:
                if m == "c": C, V = t, None; chapters += 1
                elif m in ("v~", "p~"):
                    if not text: firstC, firstV = C, V + ("" if verses else "+")
                    text = True
                elif m == "v": V = t; verses.append((C, t))
                elif m in ("ms1", "s1", "is1"):
                    if text: return bad(f"section {k} has the heading {t} in the middle")
                    if t not in name: return bad(f"section {k} with the heading {t} has the name {name}")
            if code == "PSA" and text and chapters > 1: return bad(f"section {k} runs over several chapters")
            if k[0] != "-1" and text:
                if firstV[-1] == "+": ok = k[0] == firstC and k[1][:-1] in firstV[:-1].split("-") and k[1][-1].isalpha()
                else: ok = k[1].rstrip("a") == firstV.split("-")[0] and k[0] in (firstC, startC)
                if not ok: return bad(f"section {k} starts with {firstC}:{firstV}")
                want = (verses or [(firstC, firstV[:-1])])[-1]
                if (v.endC, v.endV.rstrip("ab")) != (want[0], want[1].split("-")[-1]): return bad(f"section {k} ends with {want}")
