"""C01: discovery and checking report what is in the Bible (all bounded documents, in-line contents, combinations of books, heading texts and speech marks)."""
import collections, copy, itertools, re
import lib
from checks import usfmdocs as U
from checks import L01
from checks import P01

PROP = dict(
    title="Discovery and checking report exactly what the Bible contains",
    statement="For every book, discovery reports how many chapters, verses, verses with text, titles, headings, section references, footnotes, cross-references, figures and words (each word how often) it really has, which kinds of things occur at all, and whether it is not started, partly done or seems finished. "
              "The results for all books (and for the Old Testament, New Testament and deuterocanonical books) are the totals, lists and percentages of their books in whatever order they were loaded. "
              "The checks count each marker, character, letter and word of the printed texts and their notes, list each title, heading, reference, introduction line and note, and report a heading, note, marker or speech mark error exactly where there is one; both leave the texts unchanged and give the same when asked again.",
    over=["inputs", "histories"],
    qtext="all bounded documents and in-line contents, all combinations of up to three kinds of books, all speech-mark sequences and all texts of heading lines up to the bounds",
    why="There are no tests of discovery or checking; each statistic is gathered by its own pass over lines whose text was split off earlier.",
    files=["BibleOrgSys/Internals/InternalBibleBook.py", "BibleOrgSys/Internals/InternalBible.py"],
    mechanism=[("discover/__aggregateDiscoveryResults/check/getCheckResults", "BibleOrgSys/Internals/InternalBible.py"), ("_discover/checkBook/doCheck…", "BibleOrgSys/Internals/InternalBibleBook.py")],
)
BOUNDS = "documents of a chapter with all sequences of <=3 (thorough: 4) lines from 18 kinds, 4-5 of fewer; <=2 (3) in-line items of 24 kinds in 8 kinds of lines; all ordered selections of <=3 (4) of 11 kinds of books; all sequences of <=6 (7) speech marks and places; each kind of heading line with each kind of ending, known and unknown habits"
ASSUMPTIONS = ["which markers are printed is taken from the table of markers", "well-formed markup", "places in the introduction are not compared"]

LEAD, TRAIL = "“«„\"‘¿¡‹'([{<", ",.”»\"’›'?)!;:]}>%…—।"
MAIN = {"mt1", "mt2", "mt3", "imt1", "is1", "ip", "iot", "io1", "io2", "ili1", "ili", "iq1", "s1", "s2", "qa", "v~", "p~"}     # discovery counts the words of these
NOLINE = {"v~", "p~", "c~", "c#", "cl¤", "vp#"}
PARAGRAPHS = {"li1", "li2", "p", "m", "mi", "pc", "pi1", "q1", "q2", "q3", "qr", "qm1", "nb", "pmo"}

def setup(tier):
    P01.setup(tier)
    global G
    G = lib.bos()

def shards(tier):
    return ([("doc",) + s for s in U.documents(tier, quick=3, thorough=4)] + [("inline", l, i) for l in ["v\\", *L01.LINES] for i in range(len(L01.ITEMS) + 1)]
            + [("bible", a, b) for a in [None] + list(KINDS) for b in [None] + list(KINDS) if a or not b] + [("words", a) for a in range(len(CAPS))] + [("heads",), ("state",)] + [("speech", a, b) for a in SPEECH for b in SPEECH])

# ---- the reference model: entries are (marker, clean text, adjusted text, [(type, text, clean text)])
def words(text):
    for w in re.split(r"[\s—–]+", text):
        w = w.lstrip(LEAD).rstrip(TRAIL)
        if w and not w[0].isalnum(): w = w[1:]
        if any(not ch.isdigit() and ch not in ":-,." for ch in w): yield w

def discovery(entries):
    n = collections.Counter(m for m, *_ in entries)
    notes = [x for e in entries for x in e[3]]
    fn, xr = [x for x in notes if x[0] == "fn"], [x for x in notes if x[0] == "xr"]
    verses, done = n["v"], sum(1 for m, t, *_ in entries if m == "v~" and t)
    unfinished = any(a[0] == "v" and (b is None or b[0] != "v~") for a, b in itertools.zip_longest(entries, entries[1:]))
    refs = [t for m, t, *_ in entries if m == "r" and t]
    text = any(m in ("v~", "p~") and t for m, t, *_ in entries)
    d = dict(completedVerseCount=done, havePopulatedCVmarkers=verses > 0, mainHeadingsCount=sum(n[f"mt{i}"] for i in range(1, 5)), sectionHeadingsCount=sum(n[m] for m in ("s1", "s2", "s3", "s4", "qa")),
             sectionReferencesCount=len(refs), haveSectionReferences=bool(refs), haveTables=n["tr"] > 0, haveLists=n["li1"] > 0, haveParagraphMarkers=any(m in PARAGRAPHS for m in n),
             haveIntroductoryMarkers=any(n[m] for m in ("is1", "ip", "iot", "io1", "io2")), haveIntroductoryText=any(t for m, t, *_ in entries if m in ("is1", "ip", "iot", "io1")),
             figuresCount=sum(x[0] == "fig" for x in notes), footnotesCount=len(fn), crossReferencesCount=len(xr), haveFootnotes=bool(fn), haveCrossReferences=bool(xr),
             haveFootnoteOrigins=any("\\fr" in x[1] for x in fn), haveCrossReferenceOrigins=any("\\xo" in x[1] for x in xr), haveVerseText=text, haveNestedUSFMarkers=any("\\+" in a for _, _, a, _ in entries))
    d["haveMainHeadings"], d["haveSectionHeadings"] = d["mainHeadingsCount"] > 0, d["sectionHeadingsCount"] > 0
    if verses:
        p = min(100, round(done * 100 / verses))
        d.update(chapterCount=n["c"] or 1, verseCount=verses, percentageProgress=p, seemsFinished=text and not unfinished, notStarted=not text, partlyDone=text and unfinished)
    def ratio(name, hits, all_, limit):
        d[name + "Ratio"] = round(hits / len(all_), 2) if all_ else -1.0
        if all_: d[name + "Flag"] = d[name + "Ratio"] > limit
    ratio("sectionReferencesParenthesis", sum(t[0] == "(" and t[-1] == ")" for t in refs), refs, 0.8)
    ratio("footnotesPeriod", sum(x[2].endswith((".", ".”")) for x in fn), fn, 0.7)
    ratio("crossReferencesPeriod", sum(x[2].endswith((".", ".”")) for x in xr), xr, 0.7)
    main, every = collections.Counter(), collections.Counter()
    for m, t, a, ns in entries:
        if m in MAIN: main.update(words(t))
        for x in ns:
            if x[0] not in ("fig", "ww"): every.update(words(x[2]))
    every.update(main)
    low = lambda c: dict(sum((collections.Counter({w.lower(): k}) for w, k in c.items()), collections.Counter()))
    d.update(wordCount=sum(every.values()), uniqueWordCount=len(every), allWordCounts=dict(every), mainTextWordCounts=dict(main), allCaseInsensitiveWordCounts=low(every), mainTextCaseInsensitiveWordCounts=low(main))
    return d

def total(counter, name="Total"): return {**counter, name: sum(counter.values())} if counter else None

def markers(text): return re.findall(r"\\(\+?[a-z]+\d?\*?)", text)

def checks(entries):
    """The counts and lists of the check results (absent ones are None)"""
    printed = lambda m: m in ("v~", "p~", "c~") or G.loadedUSFMMarkers.isPrinted(m)
    lines = collections.Counter(m for m, *_ in entries if m not in NOLINE)
    func = {k: v for k, v in (("Chapters", lines["c"]), ("Verses", lines["v"]), ("Book ID", lines["id"]), ("Book Header", lines["h"]), ("Paragraphs", lines["p"]), ("Section Cross-References", lines["r"]),
                              ("Footnotes", sum(x[0] == "fn" for e in entries for x in e[3])), ("Cross-References", sum(x[0] == "xr" for e in entries for x in e[3]))) if v}
    chars, letters, points, wc = (collections.Counter() for _ in range(4))
    def count(text):
        for ch in text:
            name = "Space" if ch == " " else ch
            chars[name] += 1
            if ch == " " or ch == "-" or ch.isalpha(): letters[name if ch == " " else ch.lower()] += 1
            elif not ch.isalnum(): points[name] += 1
    inner, noted = collections.Counter(), collections.Counter()
    for m, t, a, ns in entries:
        if printed(m):
            count(t)
            if m != "c": wc.update(words(t))
        if m not in ("c#", "cl¤"): inner.update(markers(a))
        for x in ns:
            if x[0] not in ("fig", "ww"):
                noted.update(markers(x[1])); wc.update(words(x[2]))
                if printed(m): count(x[2])
    low = collections.Counter()
    for w, k in wc.items(): low[w.lower()] += k
    at, C, V = [], None, None
    for m, t, *_ in entries:
        if m == "c": C, V = t.split()[0], "0"
        elif m == "v": V = t.split()[0]
        at.append(f"GEN {C}:{V} " if C else "")
    def listed(ms, plain=None, title=False):
        return [a + (f"Main Title {m[2:]}: " if title else "" if m == plain or plain is None else f"({m}) ") + f"'{adj}'" for a, (m, t, adj, _) in zip(at, entries) if m in ms] or None
    short = lambda t: t[:70] + "…" + t[-5:] if len(t) > 80 else t
    noteLines = lambda kind: [a + f"'{short(x[1])}'" for a, e in zip(at, entries) for x in e[3] if x[0] == kind] or None
    leaders = collections.Counter()
    for e in entries:
        for x in e[3]:
            if x[0] in ("fn", "xr"):
                n = "Footnote" if x[0] == "fn" else "Cross-reference"
                leaders["Footnotes" if x[0] == "fn" else "Cross-References"] += 1; leaders[f"{n} leader {x[1][0]!r}"] += 1
    return {("USFMs", "All Newline Marker Counts"): total(lines), ("USFMs", "Functional Marker Counts"): func or None, ("USFMs", "All Text Internal Marker Counts"): total(inner), ("USFMs", "All Footnote and Cross-Reference Internal Marker Counts"): total(noted),
            ("Characters", "All Character Counts"): total(chars), ("Characters", "Letter Counts"): total(letters), ("Characters", "Punctuation Counts"): total(points),
            ("Words", "All Word Counts"): total(wc, "--Total--"), ("Words", "Case Insensitive Word Counts"): total(low, "--Total--"),
            ("Headings", "Title Lines"): listed({"mt1", "mt2", "mt3", "mt4"}, title=True), ("Headings", "Section Heading Lines"): listed({"s1", "s2", "s3", "s4", "qa"}, "s1"), ("Headings", "Descriptive Heading Lines"): listed({"d"}), ("Headings", "Section Cross-reference Lines"): listed({"r"}),
            ("Introduction", "Main Title Lines"): listed({"imt1"}), ("Introduction", "Section Heading Lines"): listed({"is1"}), ("Introduction", "Outline Title Lines"): listed({"iot"}), ("Introduction", "Outline Entry Lines"): listed({"io1", "io2"}, "io1"),
            ("Notes", "Footnote Lines"): noteLines("fn"), ("Notes", "Cross-reference Lines"): noteLines("xr"), ("Notes", "Leader Counts"): dict(leaders) or None}

def place(x): return re.sub(r"^[A-Z1-9]{3} -1:-?\d+ ", "", x)

def snapshot(b): return [(e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), e.getOriginalText(), tuple((x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in e.getExtras() or ())) for e in b._processedLines]

def compare(ctx, key, got, want, what, detail=None):
    for k in sorted(set(want) | set(got), key=str):
        if got.get(k) != want.get(k):
            return ctx.violation(key, f"{what} {k} is {lib.short(got.get(k))}, should be {lib.short(want.get(k))}", detail)
    return True

def both(ctx, key, raw, entries, kind="USFM3"):
    b = U.build(raw, kind=kind)
    before = snapshot(b)
    d = b._discover()
    ctx.step(len(raw)); ctx.state(key)
    if compare(ctx, key, d, discovery(entries), "discovery:", raw) is not True: return
    b.checkBook(d)
    r = b.getCheckResults()
    want = checks(entries)
    got = {(a, c): ([place(x) for x in r[a][c]] if isinstance(r[a][c], list) else r[a][c]) for a, c in want if c in r.get(a, ())}
    if compare(ctx, key, got, {k: v for k, v in want.items() if v is not None}, "check:", raw) is not True: return
    if r["USFMs"].get("Internal Marker Errors"): return ctx.violation(key, f"marker errors for correct markers: {r['USFMs']['Internal Marker Errors']}", raw)
    if snapshot(b) != before: return ctx.violation(key, "the lines were changed", raw)
    if b._discover() != d: return ctx.violation(key, "a second discovery has other results", raw)
    return r

def run(ctx, shard):
    kind = shard[0]
    if kind == "doc":
        for head, tokens in U.expand(shard[1:], ctx.tier):
            r = U.raw(head, tokens)
            key = U.show(r)
            with ctx.case(key): both(ctx, key, r, [(m, t, t, []) for m, t in U.expected(r)])
            if ctx.full: return
        ctx.sample(key)
    elif kind == "inline": inline(ctx, *shard[1:])
    elif kind == "bible": bibles(ctx, *shard[1:])
    elif kind == "words": capitals(ctx, shard[1])
    elif kind == "heads": heads(ctx)
    elif kind == "speech": speech(ctx, *shard[1:])
    else: state(ctx)

# ---- contents of lines
PERIOD = [("f.", "\\f + \\fr 1:1 \\ft Foot.\\f*", "", "", [("fn", "+ \\fr 1:1 \\ft Foot.", "1:1 Foot.")]), ("x.", "\\x - \\xt Gen 2:2.\\x*", "", "", [("xr", "+ \\xt Gen 2:2.", "Gen 2:2.")]),
    ("f.q", "\\f + \\fr 1:1 \\ft “Foot.”\\f*", "", "", [("fn", "+ \\fr 1:1 \\ft “Foot.”", "1:1 “Foot.”")]), ("x.q", "\\x - \\xt “Gen.”\\x*", "", "", [("xr", "+ \\xt “Gen.”", "“Gen.”")]),
    ("sym", "§word §§ €5 (1:2)", "§word §§ €5 (1:2)", "§word §§ €5 (1:2)", [])]
ITEMS = [x for x in L01.ITEMS if x[0] != "fdash"] + PERIOD

def inline(ctx, line, i):
    items, key = ITEMS, ""
    pools = [items] if ctx.quick else [items, items]
    for k in range(len(pools) + 1):
        for rest in itertools.product(*pools[:k]):
            seq = [items[i], *rest]
            if k == 2 and len({x[0] for x in seq}) == 3 and not {"f", "x", "w", "wj", "fig", "ww"} & {x[0] for x in seq[1:]}: continue
            src, adj, clean, notes = " ".join(x[1] for x in seq), " ".join(x[2] for x in seq).rstrip(), " ".join(x[3] for x in seq).rstrip(), [(n[0], n[1], n[2]) for x in seq for n in x[4]]
            if line == "v": raw, want = [("c", "1"), ("p", ""), ("v", "1 " + src)], "v~"
            elif line == "v\\":  # notes touching the verse number
                if not src.startswith("\\"): continue
                raw, want = [("c", "1"), ("p", ""), ("v", "1" + src)], "v~"
            elif line in ("p", "q1"): raw, want = [("c", "1"), (line, src), ("v", "1 end")], "p~"
            elif line == "c": raw, want, adj, clean = [("c", "1 " + src), ("p", ""), ("v", "1 end")], "c~", (" " + adj).rstrip(), (" " + clean).rstrip()
            elif line in ("s1", "d"): raw, want = [("c", "1"), (line, src), ("p", ""), ("v", "1 end")], line
            elif line == "mt1": raw, want = [("h", "Gen"), ("mt1", src), ("c", "1"), ("p", ""), ("v", "1 end")], line
            else: raw, want = [(line, src), ("c", "1"), ("p", ""), ("v", "1 end")], line
            raw = [("id", "GEN")] + raw
            sub = [(m, t.replace(src, "QQ").replace("1QQ", "1 QQ")) for m, t in raw]
            entries = [(m, clean, adj, notes) if m == want and "QQ" in t else (m, t, t, []) for m, t in U.expected(sub)]
            key = U.show(raw)
            with ctx.case(key): both(ctx, key, raw, entries)
        if ctx.full: return
    ctx.sample(key)

# ---- several books
KINDS = {
    "GEN": [("id", "GEN"), ("h", "Genesis"), ("mt1", "Genesis"), ("c", "1"), ("s1", "Head"), ("p", ""), ("v", "1 The word the end."), ("v", "2 more\\f + \\fr 1:2 \\ft Foot.\\f* words")],
    "EXO": [("id", "EXO"), ("h", "Exodus"), ("c", "1"), ("p", ""), ("v", "1 some The\\f + \\ft no period\\f*"), ("v", "2"), ("v", "3")],
    "LEV": [("id", "LEV"), ("c", "1"), ("p", ""), ("v", "1"), ("c", "2"), ("p", ""), ("v", "1")],
    "PSA": [("id", "PSA"), ("mt1", "Songs"), ("c", "1"), ("d", "Of him"), ("q1", "poem THE"), ("q1", "more poem"), ("v", "1 text\\x - \\xo 1:1 \\xt Gen 2:2\\x*")],
    "MAT": [("id", "MAT"), ("h", "Matthew"), ("mt1", "Matthew"), ("is1", "Intro"), ("ip", "An intro."), ("c", "1"), ("s1", "Head"), ("r", "(Mark 1)"), ("p", ""), ("v", "1 in In-enew\\x - \\xt Mark 1:1.\\x*"), ("v", "2 tHe")],
    "MRK": [("id", "MRK"), ("c", "1"), ("s1", "Head."), ("r", "Mat 1:1"), ("li1", "item"), ("v", "1-2 bridge"), ("v", "3")],
    "JDE": [("id", "JUD"), ("c", "1"), ("p", ""), ("v", "1")],
    "TOB": [("id", "TOB"), ("h", "Tobit"), ("c", "1"), ("p", ""), ("v", "1 tobit \\nd LORD\\nd* word\\fig cap|src=\"a.jpg\"\\fig*")],
    "SIR": [("id", "SIR"), ("c", "1"), ("p", ""), ("v", "1 sirach"), ("v", "2")],
    "OBA": [("id", "OBA"), ("p", ""), ("v", "1 no chapter"), ("v", "2 number")],
    "FRT": [("id", "FRT"), ("mt1", "Preface"), ("ip", "The front text")],
    "GLS": [("id", "GLO"), ("h", "Glossary"), ("c", "1"), ("p", "one gloss")],
}
OT, NT, DC = {"GEN", "EXO", "LEV", "PSA", "OBA"}, {"MAT", "MRK", "JDE"}, {"TOB", "SIR"}

def together(per, order):
    """The discovery results for all books from those of each book"""
    res = {}
    group = lambda c: "OT" if c in OT else "NT" if c in NT else "DC" if c in DC else "Other"
    for g in ("OT", "NT", "DC", "Other"):
        codes = [c for c in order if group(c) == g]
        if codes: res[g + "BookCount"], res[g + "BookCodes"] = len(codes), codes
    for key, name in (("notStarted", "NotStartedBookCodes"), ("seemsFinished", "SeemsFinishedBookCodes"), ("partlyDone", "PartlyDoneBookCodes")):
        for g in ("", "OT", "NT", "DC"):
            codes = [c for c in order if per[c].get(key) and (not g or group(c) == g)]
            if codes: res[g + name] = codes
    for g, size in (("", len(order)), ("OT", 39), ("NT", 27), ("DC", 15)):
        ps = [per[c]["percentageProgress"] for c in order if "percentageProgress" in per[c] and (not g or group(c) == g)]
        if ps: res[g + "percentageProgressByBook"] = f"{round(sum(ps) / size)}%"
        done, all_ = (sum(per[c].get(k, 0) for c in order if not g or group(c) == g) for k in ("completedVerseCount", "verseCount"))
        if all_: res[g + "percentageProgressByVerse"] = f"{round(done * 100 / all_)}%"
    ratios = collections.defaultdict(list)
    for c in order:
        for k, v in per[c].items():
            if k in ("percentageProgress", "uniqueWordCount"): continue
            if isinstance(v, dict):
                t = res.setdefault(k, {})
                for w, n in v.items(): t[w] = t.get(w, 0) + n
            elif isinstance(v, float):
                if v >= 0: ratios[k[:-5] + "Flag"].append(v)
            else:
                p = group(c).replace("Other", "OTHER")
                res[k] = res.get(k, 0) + v; res[p + k] = res.get(p + k, 0) + v
    for k, vs in ratios.items():
        m = round(sum(vs) / len(vs), 2)
        res[k] = True if m > 0.6 else False if m < 0.4 else None
    return res

def merged(book, codes):
    """The results for all books from those of each book"""
    res = {}
    for c in codes:
        for k, v in book[c].items():
            if isinstance(v, list): res.setdefault(k, []).extend(v); continue
            for k2, v2 in v.items():
                if isinstance(v2, list): res.setdefault(k, {}).setdefault(k2, []).extend(v2)
                else:
                    t = res.setdefault(k, {}).setdefault(k2, {})
                    for w, n in v2.items(): t[w] = t.get(w, 0) + n
    return res

EXTRA = ("Uncommon Word Counts", "Possible Word Errors")
def strip(results): return {k: ({a: b for a, b in v.items() if a not in EXTRA} if k == "Words" else v) for k, v in results.items()}

def bibles(ctx, a, b):
    """All ordered selections of books"""
    first = [x for x in (a, b) if x]
    if len(set(first)) != len(first): return
    more = [()] if len(first) < 2 else [r for n in range(0, 2 if ctx.quick else 3) for r in itertools.permutations([k for k in KINDS if k not in first], n)]
    for rest in more:
        codes = first + list(rest)
        if not codes: continue
        key = "books " + " ".join(codes)
        with ctx.case(key):
            B = P01.make({c: KINDS[c] for c in codes})
            before = {c: snapshot(B.books[c]) for c in codes}
            B.discover()
            ctx.step(len(codes)); ctx.state(key)
            res = B.discoveryResults
            if not ctx.equal(sorted(res), sorted(codes + ["ALL"]), key, "books of the results"): continue
            per = {c: res[c] for c in codes}
            alone = {c: P01.make({c: KINDS[c]}).books[c]._discover() for c in codes}
            if compare(ctx, key, per, alone, "discovery of") is not True: continue
            if compare(ctx, key, res["ALL"], together(per, list(B.books)), "all books:") is not True: continue
            allResults = copy.deepcopy(res["ALL"])
            B.reProcessBook(codes[-1])
            ctx.step()
            if compare(ctx, key, B.discoveryResults["ALL"], allResults, "all books after reprocessing one:") is not True: continue
            B.check()
            r = B.getCheckResults()
            one = copy.deepcopy(r)
            for c in codes: ctx.equal(r["ByBook"][c], B.books[c].getCheckResults(), key, f"results of {c}")
            want = merged({c: r["ByBook"][c] for c in codes}, list(B.books))
            if not ctx.equal(strip(r["ByBook"]["All Books"]), strip(want), key, "check results of all books"): continue
            for c, v in want.items():
                if isinstance(v, list): ctx.equal(r["ByCategory"].get(c), v, key, f"category {c}"); continue
                for k, x in v.items():
                    if isinstance(x, list): ctx.equal(r["ByCategory"].get(c, {}).get(k), x, key, f"category {c} {k}")
            uncommon(ctx, key, r)
            if not ctx.equal(B.getCheckResults(), one, key, "asking for the results again"): continue
            some = B.getCheckResults(codes[:1])
            ctx.equal(strip(some["ByBook"]["All Books"]), strip(merged({c: r["ByBook"][c] for c in codes}, codes[:1])), key, "results of one book")
            ctx.equal({c: snapshot(B.books[c]) for c in codes}, before, key, "lines")
        if ctx.full: return
    ctx.sample(key) if first else None

def uncommon(ctx, key, r):
    """Words used less than four times are listed, in the form (lower case if it occurs) they are used"""
    w = r["ByBook"]["All Books"].get("Words")
    if w is None: return
    forms = collections.defaultdict(dict)
    for x, n in w["All Word Counts"].items(): forms[x.lower()][x] = n
    got = w.get("Uncommon Word Counts", {})
    rare = {x: n for x, n in w["Case Insensitive Word Counts"].items() if n < 4 and not x.startswith("--")}
    if not ctx.equal({x.lower(): n for x, n in got.items() if not x.startswith("--")}, rare, key, "uncommon words"): return
    for x in got:
        if x.startswith("--"): continue
        f = forms[x.lower()]
        if x.lower() in f: ctx.expect(x == x.lower(), key, f"uncommon word {x} but it occurs as {x.lower()}")
        else: ctx.expect(x in f, key, f"uncommon word {x} never occurs so, only as {f}")
    many = sorted(x for x, f in forms.items() if len(f) > 2)
    said = [e for e in w.get("Possible Word Errors", ()) if e.startswith("Lots of ways")]
    ctx.equal(sorted({m.lower() for e in said for m in re.findall(r"'([^']+)'", e)[:1]}), many, key, "words with many capitalisations")

CAPS = ["the", "The", "THE", "tHe", "in-enew", "In-enew", "In-Enew", "in-Enew", "1cor", "1Cor", "a", "A"]
def capitals(ctx, i):
    for n in range(1, 4 if ctx.quick else 5):
        for rest in itertools.product(CAPS, repeat=n - 1):
            ws = [CAPS[i], *rest]
            key = "words " + " ".join(ws)
            with ctx.case(key):
                B = P01.make({"GEN": [("id", "GEN"), ("c", "1"), ("p", ""), ("v", "1 " + " ".join(ws))]})
                B.discover(); B.check()
                ctx.step(n); ctx.state(tuple(ws))
                r = B.getCheckResults()
                ctx.equal({k: v for k, v in r["ByBook"]["All Books"]["Words"]["All Word Counts"].items() if k != "--Total--"}, dict(collections.Counter(ws)), key, "word counts")
                uncommon(ctx, key, r)
            if ctx.full: return
    ctx.sample(key)

# ---- errors exactly where they are
def heads(ctx):
    """Each kind of heading line with each ending"""
    ends = {"Word": "", "Word.": ".", "Word!": "!", "Word?": "?", "Word:": ":", "(Word)": ")", "(Word": "(", "Word)": "x)", "Word.”": ".", "": None, "Wo.rd": "", "Word።": ".", "Word,": ",", "(Word.)": ".)"}
    for m, text, known in itertools.product(("mt1", "mt2", "s1", "s2", "s3", "qa", "r", "d", "imt1", "is1", "is2", "iot", "io1", "io2", "ip", "ipi"), ends, (None, True, False)):
        raw = [("id", "GEN"), ("h", "Gen")] + ([(m, text)] if m[0] in "im" else []) + [("c", "1")] + ([] if m[0] in "im" else [(m, text)]) + [("p", ""), ("v", "1 text.")]
        key = f"{U.show(raw)} known {known}"
        last = text[-1:]
        closed = text.endswith(tuple(a + b for a in ".።?!" for b in ("", ")", "”")))
        if not text: wrong = True
        elif m == "r": wrong = ("(" == text[0] or last == ")") if known is False else not (text[0] == "(" and last == ")")
        elif m == "d": wrong = not closed and last != ":"
        elif m in ("ip", "ipi"): wrong = not text.endswith(tuple(a + b for a in ".።" for b in ("", ")", "”"))) and last != ":"
        else: wrong = last in (".", "።")
        with ctx.case(key):
            ctx.step(); ctx.state(key)
            b = U.build(raw)
            d = b._discover()
            d.pop("sectionReferencesParenthesisFlag", None)
            if known is not None: d["sectionReferencesParenthesisFlag"] = known
            b.checkBook(d)
            r = b.getCheckResults()
            got = r.get("Headings", {}).get("Possible Heading Errors", []) + r.get("Introduction", {}).get("Possible Introduction Errors", [])
            if m != "iot": got = [e for e in got if "iot" not in e]  # about the outline title which is added above the outline
            ctx.expect(len(got) == wrong, key, f"errors {got}, expected {int(wrong)}")
    # closing punctuation of notes, and anchors
    for kind, note, ref, known, V in itertools.product(("f", "x"), ("note", "note.", "note?", "note.”", "note,"), ("1:1", "1:2", "2:1", "1.1", "1:1:", "9:9", "1:1-2"), (None, True, False), ("1", "1-2", "2")):
        raw = [("id", "GEN"), ("h", "Gen"), ("c", "1"), ("p", ""), ("v", f"{V} one\\{kind} + \\{'fr' if kind == 'f' else 'xo'} {ref} \\{kind}t {note}\\{kind}* two.")]
        key = f"{U.show(raw)} known {known}"
        closed = note.endswith((".", "?", ".”"))
        name = "Footnote" if kind == "f" else "Cross-reference"
        with ctx.case(key):
            ctx.step(); ctx.state(key)
            b = U.build(raw)
            d = b._discover()
            flag = "footnotesPeriodFlag" if kind == "f" else "crossReferencesPeriodFlag"
            d.pop(flag, None)
            if known is not None: d[flag] = known
            b.checkBook(d)
            got = [e for x in ("Footnote Errors", "Cross-reference Errors") for e in b.getCheckResults().get("Notes", {}).get(x, [])]
            period = [e for e in got if "punctuation" in e]
            ctx.expect(len(period) == (known is not None and known != closed), key, f"errors {period}")
            anchor = [e for e in got if "anchor" in e]
            want = ref.rstrip(":").replace(".", ":") not in ([f"1:{V}"] if "-" in V else [f"1:{V}"] + (["1:1-2"] if V in "12" else [])) + (["1:1", "1:2"] if "-" in V else [])
            if ref != "1:1:" : ctx.expect(len(anchor) == want, key, f"errors {anchor}, expected {int(want)}")
    # empty verses of books which seem finished or not, and missing or repeated id and h lines
    for ids, hs in itertools.product((0, 1, 2), (0, 1, 2)):
        raw = [("id", "GEN")] * ids + [("h", "Gen")] * hs + [("c", "1"), ("p", ""), ("v", "1 text.")]
        key = f"{ids} id and {hs} h lines"
        with ctx.case(key):
            ctx.step(); ctx.state(key)
            b = U.build(raw); b.checkBook(b._discover())
            e = b.getCheckResults()["USFMs"].get("Newline Marker Errors", [])
            ctx.equal([sum("'id'" in x for x in e) > 0, sum("'h'" in x for x in e) > 0], [ids != 1, hs != 1], key, f"errors {e}")

SPEECH = ["“", "”", "‘", "’", "«", "»", "v"]
PAIR = {"“": "”", "‘": "’", "«": "»"}
def speech(ctx, a, b):
    n, key = 6 if ctx.quick else 7, None
    for k in range(0, n - 1):
        for rest in itertools.product(SPEECH, repeat=k):
            seq = (a, b) + rest
            if seq[-1] == "v" or "vv" in "".join(seq): continue
            verses, text, stack, good, prev = [], "word", [], True, None
            for ch in seq:
                if ch == "v": verses.append(text); text = "word"
                elif ch in PAIR:
                    if stack and (stack[-1] == ch or (len(stack) > 1 and stack[-2] == ch)) or len(stack) > 2: good = False
                    stack.append(ch); text += " " + ch + "say"
                else:
                    if stack and PAIR[stack[-1]] == ch: stack.pop()
                    else: good = False
                    text += ch
            if stack: good = False
            if "v" in seq and len(stack) == 0 and good and any(ch in PAIR for ch in seq): pass
            verses.append(text + " end")
            raw = [("id", "GEN"), ("h", "Gen"), ("c", "1"), ("p", "")] + [("v", f"{i + 1} {t}") for i, t in enumerate(verses)]
            key = "speech " + " / ".join(verses)
            with ctx.case(key):
                ctx.step(len(seq)); ctx.state(seq)
                bk = U.build(raw); bk.doCheckSpeechMarks()
                got = bk.getCheckResults().get("Speech Marks", {}).get("Possible Matching Errors", [])
                if good: ctx.expect(not got, key, f"errors {got} but the marks match")
                elif not (stack and len(stack) == 0): ctx.expect(bool(got) or deep(seq), key, "no errors but the marks don't match")
                if "v" not in seq:                                                             # the same in a footnote
                    raw2 = [("id", "GEN"), ("c", "1"), ("p", ""), ("v", f"1 text\\f + \\ft {text} end\\f* end.")]
                    bk = U.build(raw2); bk.doCheckSpeechMarks()
                    got = bk.getCheckResults().get("Speech Marks", {}).get("Possible Matching Errors", [])
                    st, ok = [], True
                    for ch in seq:
                        if ch in PAIR: ok = ok and not (st and st[-1] == ch); st.append(ch)
                        elif st and PAIR[st[-1]] == ch: st.pop()
                        else: ok = False
                    ctx.expect(bool(got) == (not ok or bool(st)), key + " in a note", f"errors {got}, well matched: {ok and not st}")
            if ctx.full: return
    if key: ctx.sample(key)

def deep(seq):
    """Only too deep or with a mark inside its own kind two levels up, which the check may accept"""
    stack = []
    for ch in seq:
        if ch == "v": continue
        if ch in PAIR:
            if stack and stack[-1] == ch: return False
            stack.append(ch)
        elif stack and PAIR[stack[-1]] == ch: stack.pop()
        else: return False
    return not stack

def state(ctx):
    """Discovery and checks don't depend on each other or on what was asked before"""
    for codes in itertools.permutations(KINDS, 2):
        key = "alone " + " ".join(codes)
        with ctx.case(key):
            ctx.step(2); ctx.state(codes)
            A = P01.make({c: KINDS[c] for c in codes})
            A.discover(); A.check(codes[:1])
            B = P01.make({c: KINDS[c] for c in codes})
            P01.answers(B, codes[1]); B.discover(); B.check()
            ctx.equal(A.discoveryResults, B.discoveryResults, key, "discovery")
            ctx.equal(A.books[codes[0]].getCheckResults(), B.books[codes[0]].getCheckResults(), key, "results of the first book")
            ctx.expect(not A.books[codes[1]].getCheckResults().get("Words"), key, "the other book was checked too")
