"""L01: processing a book keeps every line, word, number and note (all bounded line sequences, all bounded inline sequences)."""
import itertools
import lib
from checks import usfmdocs as U

PROP = dict(
    title="Processing a book keeps every line, word, number and note in place",
    statement="When the raw lines of a book are processed, every line becomes its entries in the original order: chapter and verse numbers, titles, headings and paragraphs keep their "
              "(standardised) markers, verse and paragraph text is split off unchanged, a missing chapter 1 is supplied, and nothing is lost or doubled. "
              "Every footnote, endnote, cross-reference, figure, Strong's number and word attribute moves once, in order, to the notes of its line with the index where it stood, "
              "and what remains is the text with (adjusted) and without (clean) its character formatting.",
    over=["inputs"],
    qtext="all sequences of USFM lines up to the bound, and all sequences of inline items (words, character formatting, all note types, word attributes) up to the bound in verse, paragraph, heading, title and chapter lines",
    why="There are no unit tests of line processing at all; it is a chain of text searches whose result depends on what stands before and after each marker.",
    files=["BibleOrgSys/Internals/InternalBibleBook.py"],
    mechanism=[("InternalBibleBook.processLines", "BibleOrgSys/Internals/InternalBibleBook.py"), ("_processLineFix", "BibleOrgSys/Internals/InternalBibleBook.py")],
)
BOUNDS = ("line sequences after \\c 1: all of <=3 (quick) / <=4 (thorough) lines from 18 kinds, <=4 / <=5 from 13 kinds, <=5 / <=6 from 8 kinds; introductions of <=3 / <=4 lines from 9 kinds x heads x bodies; "
          "inline: all sequences of <=3 (quick) / <=4 (thorough) items from 24 kinds in 8 line kinds, for USFM3, USFM2 and USX")
ASSUMPTIONS = ["well-formed markup: every note and character field is closed on its line"]

def setup(tier):
    lib.bos()

# item: (name, source, adjusted, clean, note) ; note = (type, text, clean text)
ITEMS = [
    ("word", "alpha", "alpha", "alpha", []), ("two", "beta gamma.", "beta gamma.", "beta gamma.", []), ("punct", "“delta,” he", "“delta,” he", "“delta,” he", []),
    ("nd", "\\nd LORD\\nd*", "\\nd LORD\\nd*", "LORD", []), ("add", "\\add of it\\add*", "\\add of it\\add*", "of it", []), ("bd", "\\bd big\\bd*", "\\bd big\\bd*", "big", []),
    ("wj", "\\wj I am \\+nd God\\+nd* now\\wj*", "\\wj I am \\+nd God\\+nd* now\\wj*", "I am God now", []),
    ("qs", "\\qs Selah\\qs*", "\\qs Selah\\qs*", "Selah", []), ("w", "\\w grace\\w*", "\\w grace\\w*", "grace", []),
    ("f", "\\f + \\fr 1:1 \\ft Foot note\\f*", "", "", [("fn", "+ \\fr 1:1 \\ft Foot note", "1:1 Foot note")]),
    ("f2", "\\f + \\fr 1.2: \\fq lamb\\ft Or \\fqa goat\\f*", "", "", [("fn", "+ \\fr 1.2: \\fq lamb\\ft Or \\fqa goat", "1.2: lambOr goat")]),
    ("fplain", "\\f + plain note\\f*", "", "", [("fn", "+ \\ft plain note", "plain note")]),
    ("fminus", "\\f - \\ft minus\\f*", "", "", [("fn", "+ \\ft minus", "minus")]),
    ("fno", "\\f \\ft nocaller \\f*", "", "", [("fn", "+ \\ft nocaller", "nocaller")]),
    ("fdash", "\\f + \\ft one - two + three\\f*", "", "", [("fn", "+ \\ft one - two + three", "one - two + three")]),
    ("fe", "\\fe + \\ft End note\\fe*", "", "", [("en", "+ \\ft End note", "End note")]),
    ("x", "\\x + \\xo 1:1 \\xt Gen 2:2\\x*", "", "", [("xr", "+ \\xo 1:1 \\xt Gen 2:2", "1:1 Gen 2:2")]),
    ("xplain", "\\x + Exo 3:3\\x*", "", "", [("xr", "+ \\xt Exo 3:3", "Exo 3:3")]),
    ("fig", '\\fig Cap tion.|src="a1.jpg" size="col" ref="1.18"\\fig*', "", "", [("fig", 'Cap tion.|src="a1.jpg" size="col" ref="1.18"', 'Cap tion.|src="a1.jpg" size="col" ref="1.18"')]),
    ("fig2", "\\fig Desc|a2.jpg|col||(c)|Cap|1.18\\fig*", "", "", [("fig", "Desc|a2.jpg|col||(c)|Cap|1.18", "Desc|a2.jpg|col||(c)|Cap|1.18")]),
    ("str", "\\str 2316\\str*", "", "", [("str", "2316", "2316")]),
    ("ww", "\\w people|nation\\w*", "people", "people", [("ww", "people|nation", "people|nation")]),
    ("ww2", '\\w earth|strong="H0776" x-morph="He,Nc"\\w*', "earth", "earth", [("ww", 'earth|strong="H0776" x-morph="He,Nc"', 'earth|strong="H0776" x-morph="He,Nc"')]),
    ("wwin", "\\add the \\+w seas|sea\\+w*\\add*", "\\add the seas\\add*", "the seas", [("ww", "seas|sea", "seas|sea", 13)]),
]
LINES = ["v", "p", "s1", "ip", "mt1", "q1", "c", "d"]
ATTACH = {"f", "f2", "fe", "x", "str", "fplain", "fdash"}          # also tried directly behind the word before it

def shards(tier):
    res = [("doc",) + s for s in U.documents(tier)]
    for l in LINES:
        for i in range(len(ITEMS)): res.append(("inline", l, i))
    return res + [("fix",)]

def run(ctx, shard):
    if shard[0] == "doc":
        for n, (head, tokens) in enumerate(U.expand(shard[1:], ctx.tier)):
            r = U.raw(head, tokens)
            key = U.show(r)
            with ctx.case(key):
                ctx.step(len(r))
                document(ctx, key, r)
            if ctx.full: return
        if n == 0 or shard[1] == "head": ctx.sample(key)
    elif shard[0] == "inline":
        n = 3 if ctx.quick else 4
        for k in range(0, n):
            pool = ITEMS if k < 2 else [x for x in ITEMS if x[0] in ("word", "nd", "wj", "f", "fno", "fe", "x", "fig", "str", "ww", "ww2", "wwin", "w")] if ctx.quick or k < 3 else [x for x in ITEMS if x[0] in ("word", "wj", "f", "x", "ww", "fig", "str")]
            for rest in itertools.product(pool, repeat=k):
                items = [ITEMS[shard[2]]] + list(rest)
                for attach in (False, True) if any(x[0] in ATTACH for x in items[1:]) else (False,):
                    for kind in ("USFM3",) if k > 1 else ("USFM3", "USFM2", "USX", "OTHER"):
                        inline(ctx, shard[1], items, attach, kind)
                if ctx.full: return
    else: fixes(ctx)

def document(ctx, key, r, b=None, kind="USFM3"):
    b = U.build(r, kind=kind)
    got, want = U.content(b._processedLines), U.expected(r)
    ctx.state(tuple((e.getMarker(), structural(e)) for e in b._processedLines))
    if got != want:
        ctx.violation(key, f"content entries {lib.short(got, 1500)} but the model says {lib.short(want, 1500)}", r); return
    # the texts of an entry without markup agree, and the original line is kept
    i = 0
    origs = [(m, t) for m, t in r]
    for e in b._processedLines:
        if U.structural(e): continue
        if e.getAdjustedText() != e.getCleanText(): ctx.violation(key, f"adjusted text {e.getAdjustedText()!r} of {e.getMarker()} {e.getCleanText()!r}", r); return
        if e.getMarker() not in ("c#", "c", "v") and e.getExtras(): ctx.violation(key, "notes from nowhere", r); return
        if e.getCleanText() not in e.getOriginalText(): ctx.violation(key, f"original text {e.getOriginalText()!r} lacks {e.getCleanText()!r}", r); return

structural = U.structural

def inline(ctx, line, items, attach, kind):
    src = adj = clean = ""
    notes = []
    for i, it in enumerate(items):
        name, s, a, c, ns = it
        sep = "" if i == 0 or (attach and name in ATTACH) else " "
        src += sep + s; adj += sep; clean += sep
        for n in ns:
            at = len(adj) + (n[3] if len(n) > 3 else len(a))
            notes.append((n[0], at, n[1], n[2]))
        adj += a; clean += c
    adj, clean = adj.rstrip(), clean.rstrip()
    if line == "v": raw, want = [("c", "1"), ("p", ""), ("v", "1 " + src)], "v~"
    elif line in ("p", "q1"): raw, want = [("c", "1"), (line, src), ("v", "1 end")], "p~"
    elif line == "c":
        raw, want = [("c", "1 " + src), ("p", ""), ("v", "1 end")], "c~"
        adj, clean, notes = " " + adj, " " + clean, [(t, i + 1, n, c) for t, i, n, c in notes]
        adj, clean = adj.rstrip(), clean.rstrip()
    elif line in ("s1", "d"): raw, want = [("c", "1"), (line, src), ("p", ""), ("v", "1 end")], line
    elif line == "mt1": raw, want = [("h", "Gen"), ("mt1", src), ("c", "1"), ("p", ""), ("v", "1 end")], line
    else: raw, want = [(line, src), ("c", "1"), ("p", ""), ("v", "1 end")], line
    raw = [("id", "GEN")] + raw
    key = f"{kind} {U.show(raw)}"
    with ctx.case(key):
        ctx.step(len(items)); ctx.state(kind, line, attach, tuple(x[0] for x in items))
        b = U.build(raw, kind=kind)
        hits = [e for e in b._processedLines if e.getMarker() == want]
        if not ctx.expect(len(hits) == 1, key, f"{len(hits)} entries for the line", raw): return
        e = hits[0]
        if not ctx.equal(e.getAdjustedText(), adj, key, "adjusted text", raw): return
        if not ctx.equal(e.getCleanText(), clean, key, "clean text", raw): return
        got = [(x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in (e.getExtras() or [])]
        if not ctx.equal(got, notes, key, "notes", raw): return
        if not ctx.expect(src.rstrip() in e.getOriginalText(), key, lambda: f"original text is {e.getOriginalText()!r}", raw): return
        ctx.equal([x for x in U.content(b._processedLines) if x[0] != want], [x for x in U.expected([(m, t if t != src and not t.startswith("1 " + src) else ("1" if m == "c" else "1 Q" if m == "v" else "Q")) for m, t in raw]) if x[0] != want], key, "other entries", raw)

def fixes(ctx):
    """Angle brackets become quotation marks; trailing white space goes; verse numbers with notes; published verse numbers."""
    for words in itertools.product(("<<one>>", "<two>", "three", "<<four <five> six>>"), repeat=2):
        text = " ".join(words)
        for kind in ("USFM3", "USFM2", "USX", "OTHER"):
            for line in ("v", "p", "s1", "h"):
                raw = [("id", "GEN")] + ([("h", text)] if line == "h" else []) + [("c", "1")] + ([(line, text)] if line in ("p", "s1") else []) + [("v", "1 " + (text if line == "v" else "end"))]
                key = f"quotes {kind} {U.show(raw)}"
                with ctx.case(key):
                    ctx.step(); ctx.state(key)
                    b = U.build(raw, kind=kind)
                    want = text if kind == "OTHER" or line == "h" else text.replace("<<", "“").replace(">>", "”").replace("<", "‘").replace(">", "’")
                    got = [e.getCleanText() for e in b._processedLines if e.getMarker() == dict(v="v~", p="p~").get(line, line)]
                    ctx.equal(got, [want], key, "clean text")
    for tail in ("", " ", "   "):
        for text in ("one", "one \\f + \\ft note\\f*", "one\\f + \\ft note\\f* "):
            raw = [("id", "GEN"), ("c", "1"), ("p", ""), ("v", "1 " + text + tail)]
            key = "tail " + repr(raw[-1])
            with ctx.case(key):
                ctx.step(); ctx.state(key)
                e = [e for e in U.build(raw)._processedLines if e.getMarker() == "v~"][0]
                ctx.equal((e.getAdjustedText(), e.getCleanText()), ("one", "one"), key, "text")
    for num in ("1", "1-2", "1a", "3"):
        for note in ("", "\\f + \\ft numbernote\\f*", "\\x + \\xt Gen 2:2\\x*"):
            for rest in ("one two", "", "one\\f + \\ft second\\f*"):
                if note and not rest: continue
                raw = [("id", "GEN"), ("c", "1"), ("p", ""), ("v", num + note + (" " + rest if rest else ""))]
                key = "number " + U.show(raw)
                with ctx.case(key):
                    ctx.step(); ctx.state(key)
                    es = [e for e in U.build(raw)._processedLines if e.getMarker() in ("v", "v~")]
                    ctx.equal([e.getCleanText().strip() for e in es], [num] + (["one two" if "two" in rest else "one"] if rest else []), key, "verse entries")
                    seen = "".join(x.getCleanText() + " " for e in es for x in (e.getExtras() or []))
                    for w in ("numbernote", "second", "Gen 2:2"):
                        if w in raw[-1][1]: ctx.expect(seen.count(w) >= 1, key, lambda: f"note {w} is lost: {seen!r}")
    for vp in ("1b", "4-5", "III"):
        for before in ("", "one "):
            raw = [("id", "GEN"), ("c", "1"), ("p", ""), ("v", f"1 {before}\\vp {vp}\\vp* two"), ("v", "2 three")]
            key = "vp " + U.show(raw)
            with ctx.case(key):
                ctx.step(); ctx.state(key)
                b = U.build(raw)
                got = U.content(b._processedLines)
                ctx.equal(got, [("id", "GEN"), ("c", "1"), ("p", ""), ("c#", "1"), ("vp#", vp), ("v", "1"), ("v~", f"{before} two"), ("v", "2"), ("v~", "three")], key, "entries")
