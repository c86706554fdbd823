"""T01: searching a Bible finds exactly the occurrences."""
import itertools, re
import lib
from checks import usfmdocs as U

PROP = dict(
    title="Searching a Bible finds every occurrence, and nothing else, at its place",
    statement="A text search returns, in the order of the books and lines, one result for each place where the text (or regular expression) occurs in the parts which the options select "
              "(introduction, main text, markers, notes, books, chapters, paragraph markers), subject to case, accents and word position; each result names the book, chapter, verse (the first one of a bridge) "
              "and index of the match with the text before and after it, and the summary lists the searched and the found books. Searching alters neither the Bible nor later searches.",
    over=["inputs", "configurations"],
    qtext="all combinations of the search options with the listed texts on a two-book Bible, and all short texts from small words searched for all short strings",
    why="No test calls the search; its many flags interact and most combinations had never been run.",
    files=["BibleOrgSys/Internals/InternalBible.py"],
    mechanism=[("InternalBible.findText", "BibleOrgSys/Internals/InternalBible.py")],
)
BOUNDS = ("options: 14 texts x 5 word modes x case x accents x introduction x main text x markers x notes x 2 context lengths x 4 book lists x 3 chapter lists, 5 marker lists; "
          "texts: all sequences of <=3 (quick) / <=4 (thorough) words from 7, each searched for 12 strings in 5 word modes")
ASSUMPTIONS = ["letters whose accent-free or lower case form has another length are excluded", "regular expressions with accents are excluded together with ignoring accents"]

RAW = {
    "GEN": [("id", "GEN Lord test"), ("h", "Genesis"), ("mt1", "The Lord"), ("is1", "Intro lord"), ("ip", "Introducing the LORD and lordship\\f + \\ft intro lord note\\f*"), ("c", "1"), ("v", "1 Lord before p"), ("s1", "Heading of the Lord"), ("p", ""),
            ("v", "2-3 The lord and overlord.\\f + \\ft Lord of note\\f* And lords\\x + \\xt Gen 1:1 lord\\x* too"), ("q1", "Sélah lord"), ("v", "4 SELAH overlord"), ("c", "2"), ("p", "start lord"), ("v", "1a Selah"), ("q2", "lordlord Lord")],
    "EXO": [("id", "EXO"), ("h", "Exodus"), ("c", "1"), ("p", ""), ("v", "1 nothing here"), ("v", "2 the Lord\\f + \\fr 1:2 \\ft one lord\\f*\\fe + \\ft two lord\\fe*"), ("c", "3"), ("m", ""), ("v", "1 Sé LORD")],
}
WORDS = ["lord", "Lord", "LORDS", "the Lord", "lo", "sel", "Sél", "regex:l.rd", "regex:L.rd", "regex:[A-Z]e", "selah ", "\\q1", "zzz", "2"]
MODES = ["Any", "Whole", "Begins", "EndsWord", "EndsLine"]
BOOKS = ["ALL", None, ["EXO"], ["EXO", "GEN", "MAT"]]
TEXTS = ["aa", "ab", "a", "A", "ba.", "á", "aaa"]
FIND = ["a", "aa", "ab", "A", "á", "a a", ".", "b", "aaa", "regex:a+", "regex:^a", "regex:b.?a"]

def setup(tier): lib.bos()
def shards(tier):
    return [("opts", w, m) for w in WORDS for m in MODES] + [("markers", w) for w in WORDS] + [("text", a, b) for a in TEXTS for b in TEXTS]

def bible(raws):
    from BibleOrgSys.Internals.InternalBible import InternalBible
    B = InternalBible(); B.name = B.abbreviation = "Test"
    for code, raw in raws.items(): B.stashBook(U.build(raw, code))
    return B

def plain(s):
    return s.translate(str.maketrans("éáÉÁ", "eaEA"))

def model(B, o):
    from BibleOrgSys.Internals.InternalBibleInternals import BOS_EXTRA_TYPES, BOS_EXTRA_MARKERS
    from BibleOrgSys import BibleOrgSysGlobals as G
    text = o["findText"]
    rx = text[6:] if text.startswith("regex:") else None
    if rx is None:
        if o["ignoreDiacriticsFlag"]: text = plain(text)
        if o["caselessFlag"]: text = text.lower()
    searched, found, out = [], [], []
    for BBB in B.books:
        if o["bookList"] not in (None, "ALL") and BBB not in o["bookList"]: continue
        searched.append(BBB)
        C, V, para = "-1", "-1", None
        for j, e in enumerate(B.books[BBB]._processedLines):
            m = e.getMarker()
            if m == "c": C, V = e.getCleanText(), "0"
            elif C == "-1": V = str(j)
            elif m == "v": V = e.getCleanText()
            structural = m[0] == "¬" or m in ("headers", "intro", "chapters")
            inpara = para
            if m in G.USFMParagraphMarkers: para = m
            if structural: continue
            if o["markerList"]:
                if not (m in o["markerList"] or (m in ("v~", "p~") and inpara in o["markerList"])): continue
            elif C == "-1" and not o["includeIntroFlag"]: continue
            if o["chapterList"] is not None and C not in o["chapterList"] and int(C) not in o["chapterList"]: continue
            s = e.getOriginalText() if o["includeExtrasFlag"] else e.getCleanText()
            if not o["includeMainTextFlag"] and not o["markerList"] and C != "-1" and (m in ("v~", "p~") or m in G.USFMParagraphMarkers):
                s = " ".join((f"\\{BOS_EXTRA_MARKERS[BOS_EXTRA_TYPES.index(x.getType())]} " if o["includeMarkerTextFlag"] else "") + x.getText() for x in e.getExtras() or []) if o["includeExtrasFlag"] else ""
            if o["includeMarkerTextFlag"]: s = f"\\{m} {s}"
            if not s: continue
            t = plain(s) if o["ignoreDiacriticsFlag"] else s
            if rx is not None: spans = [x.span() for x in re.finditer(rx, t, re.IGNORECASE if o["caselessFlag"] else 0)]
            else:
                if o["caselessFlag"]: t = t.lower()
                spans = []
                for i in range(len(t)):
                    if t[i:i + len(text)] != text: continue
                    k = i + len(text)
                    startsword, endsword = i == 0 or not t[i - 1].isalpha(), k >= len(t) or not t[k].isalpha()
                    if dict(Any=True, Whole=startsword and endsword, Begins=startsword, EndsWord=endsword, EndsLine=k == len(t))[o["wordMode"]]: spans.append((i, k))
            n = o["contextLength"]
            for i, k in spans:
                before, after = (s[max(0, i - n):i], s[k:k + n]) if n else (None, None)
                out.append(((BBB, C, V.split("-")[0] if C != "-1" else V, str(i)), e.getOriginalMarker(), before) + ((s[i:k],) if o["caselessFlag"] else ()) + (after,))
                if BBB not in found: found.append(BBB)
    return searched, found, out

def compare(ctx, B, o, key):
    with ctx.case(key):
        ctx.step()
        searched, found, want = model(B, o)
        given = dict(o)
        options, summary, got = B.findText(given)
        got = [(r[0].getBCVI(),) + tuple(r[1:]) for r in got]
        ctx.state(key if len(want) < 3 else tuple(want), len(want))
        ctx.equal(got, want, key, "results")
        ctx.equal((summary["searchedBookList"], summary["foundBookList"]), (searched, found), key, "summary")
        ctx.equal(options["findHistoryList"], [o["findText"]], key, "history")
        ctx.equal({k: v for k, v in options.items() if k in o}, o, key, "options")

def options(**kw):
    o = dict(wordMode="Any", caselessFlag=True, ignoreDiacriticsFlag=False, includeIntroFlag=True, includeMainTextFlag=True, includeMarkerTextFlag=False, includeExtrasFlag=False,
             contextLength=30, bookList="ALL", chapterList=None, markerList=None)
    o.update(kw)
    return o

def run(ctx, shard):
    if shard[0] == "text":
        top = 1 if ctx.quick else 2
        for n in range(0, top + 1):
            for rest in itertools.product(TEXTS, repeat=n):
                text = " ".join(shard[1:3] + rest)
                B = bible({"GEN": [("id", "GEN"), ("c", "1"), ("p", ""), ("v", "1 " + text)]})
                for f in FIND:
                    for mode in MODES if not f.startswith("regex:") else MODES[:1]:
                        for caseless in (True, False):
                            for diac in (True, False):
                                compare(ctx, B, options(findText=f, wordMode=mode, caselessFlag=caseless, ignoreDiacriticsFlag=diac, contextLength=2, includeIntroFlag=False), f"{text!r} find {f!r} {mode} caseless={caseless} accents={diac}")
                if ctx.full: return
        return
    B = bible(RAW)
    before = {c: [(e.getMarker(), e.getOriginalText(), e.getCleanText()) for e in b._processedLines] for c, b in B.books.items()}
    flags = list(itertools.product((True, False), repeat=6))
    if shard[0] == "opts":
        if shard[1].startswith("regex:") and shard[2] != "Any": return
        for caseless, diac, intro, main, mark, extra in flags:
            for books in BOOKS:
                for chapters in (None, ["1"], [2, 3]):
                    for n in (30, 3) if ctx.quick else (30, 3, 0, 1):
                        o = options(findText=shard[1], wordMode=shard[2], caselessFlag=caseless, ignoreDiacriticsFlag=diac, includeIntroFlag=intro, includeMainTextFlag=main,
                                    includeMarkerTextFlag=mark, includeExtrasFlag=extra, contextLength=n, bookList=books, chapterList=chapters)
                        compare(ctx, B, o, f"find {o}")
            if ctx.full: return
    else:
        for markers in (["p"], ["q1"], ["s1"], ["q2", "m"], ["ip"]):
            for mode in MODES if not shard[1].startswith("regex:") else MODES[:1]:
                for caseless in (True, False):
                    for books in BOOKS:
                        o = options(findText=shard[1], wordMode=mode, caselessFlag=caseless, includeIntroFlag=False, includeMainTextFlag=False, bookList=books, markerList=markers)
                        compare(ctx, B, o, f"find {o}")
            if ctx.full: return
    ctx.equal({c: [(e.getMarker(), e.getOriginalText(), e.getCleanText()) for e in b._processedLines] for c, b in B.books.items()}, before, repr(shard), "the Bible after the searches")
