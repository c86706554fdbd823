"""X01: USX and USFX files are read as the same Bible as their USFM form: bounded documents and in-line texts in every form the formats allow."""
import itertools, re
from xml.sax.saxutils import escape, quoteattr
import lib
from checks import usfmdocs as U

PROP = dict(
    title="USX and USFX files are read completely, each thing at its place",
    statement="Loading a book from a USX (1, 2.0, 2.5, 2.6 or 3.0) or USFX file gives exactly the chapters, verses, paragraphs, poetry, headings, introduction and tables of the file, in their order, each with its own whole text "
              "and character formatting, and its footnotes, cross-references, figures and word attributes taken out of it at their places: the same book as its USFM form gives, however the file is laid out in lines and indented where the format allows that. (For USFX: of files whose lines are plain text, without notes or character formatting.)",
    over=["inputs", "configurations"],
    qtext="all bounded sequences of lines of a book, and of in-line elements in each kind of line, written in every version and layout of the two XML formats",
    why="No test loads a USX or USFX file with notes, poetry or tables; the readers walk nested elements with text and tail everywhere, and lose or move text silently.",
    files=["BibleOrgSys/Formats/USXXMLBibleBook.py", "BibleOrgSys/Formats/USFXXMLBible.py"],
    mechanism=[("load of each book", "BibleOrgSys/Formats/USXXMLBibleBook.py"), ("load of the Bible", "BibleOrgSys/Formats/USFXXMLBible.py")],
)
BOUNDS = ("All bounded documents of U (up to 3, thorough 4, further lines after each head) in five version/layout forms of USX and two (thorough four) forms of USFX; every in-line item and pair (thorough triple) of items in each kind of line, every version and layout; "
          "sequences of up to 3 (thorough 4) of 10 pieces inside a paragraph, a character style, a note and a table cell; all tables of one and two rows of the cells listed; alternative and published numbers; side bars (up to 4, thorough 5 parts) and peripheral books (up to 3, thorough 5 parts)")
ASSUMPTIONS = ["verses stand in paragraphs or table cells; no verse crosses a side bar",
               "the USFX form is claimed for lines of plain text only (its reader re-spaces in-line elements)",
               "link elements and the attributes of rb and jmp are outside the claim; so are titles of more than 80 characters and a paragraph whose first thing is a note followed by a space",
               "the clean text of a line with a milestone in it is not compared"]

def setup(tier):
    global G
    G = lib.bos()

# ---- in-line items: (name, tree, adjusted text, clean text, [(note type, text, clean text)])
# a tree is a list of strings and (tag, attributes, children)
def T(tag, _kids=(), **attrs): return (tag, {k.rstrip("_").replace("_", "-"): v for k, v in attrs.items()}, list(_kids) if not isinstance(_kids, str) else [_kids])
def ch(style, *kids, **attrs): return T("char", kids, style=style, **attrs)
def note(style, caller, *kids): return T("note", kids, style=style, caller=caller)

ITEMS = [
    ("word", ["alpha"], "alpha", "alpha", []), ("punct", ["“delta,” he & 'it'"], "“delta,” he & 'it'", "“delta,” he & 'it'", []),
    ("nd", [ch("nd", "LORD")], "\\nd LORD\\nd*", "LORD", []), ("add", [ch("add", "of it")], "\\add of it\\add*", "of it", []),
    ("wj", [ch("wj", "I am ", ch("nd", "God"), " now")], "\\wj I am \\+nd God\\+nd* now\\wj*", "I am God now", []),
    ("qs", [ch("qs", "Selah")], "\\qs Selah\\qs*", "Selah", []),
    ("f", [note("f", "+", ch("fr", "1:1 ", closed="false"), ch("ft", "Foot note", closed="false"))], "", "", [("fn", "+ \\fr 1:1 \\ft Foot note", "1:1 Foot note")]),
    ("f2", [note("f", "+", ch("fr", "1.2: ", closed="false"), ch("fq", "lamb ", closed="false"), ch("ft", "Or ", closed="false"), ch("fqa", "goat", closed="false"))], "", "", [("fn", "+ \\fr 1.2: \\fq lamb \\ft Or \\fqa goat", "1.2: lamb Or goat")]),
    ("x", [note("x", "+", ch("xo", "1:1 ", closed="false"), ch("xt", "Gen 2:2", closed="false"))], "", "", [("xr", "+ \\xo 1:1 \\xt Gen 2:2", "1:1 Gen 2:2")]),
    ("w", [ch("w", "grace", strong="G5485", lemma="charis")], "grace", "grace", [("ww", 'grace|strong="G5485" lemma="charis"', 'grace|strong="G5485" lemma="charis"')]),
    ("opt", ["some ", T("optbreak"), " more"], "some // more", "some // more", []),
    ("wjf", [ch("wj", "I said ", note("f", "-", ch("ft", "Note", closed="false")), "so")], "\\wj I said so\\wj*", "I said so", [("fn", "+ \\ft Note", "Note")]),
    ("fnd", [note("f", "+", ch("ft", "the ", ch("nd", "LORD"), " of ", ch("add", "all"), " is", closed="false"))], "", "", [("fn", "+ \\ft the \\+nd LORD\\+nd* of \\+add all\\+add* is", "the  LORD of  all is")]),
    ("fe", [note("fe", "+", ch("ft", "End note", closed="false"))], "", "", [("en", "+ \\ft End note", "End note")]),
    ("xref", [note("x", "+", ch("xo", "1:1 ", closed="false"), ch("xt", T("ref", "Gen 2:2", loc="GEN 2:2"), "; ", T("ref", "Exo 3:3", loc="EXO 3:3"), closed="false"))], "", "", [("xr", "+ \\xo 1:1 \\xt Gen 2:2; Exo 3:3", "1:1 Gen 2:2; Exo 3:3")]),
    ("xref2", [note("x", "+", ch("xo", "1:1 ", closed="false"), ch("xt", closed="false"), T("ref", "Gen 2:2", loc="GEN 2:2"), " ", T("ref", "Exo 3:3", loc="EXO 3:3"))], "", "", [("xr", "+ \\xo 1:1 \\xt Gen 2:2 Exo 3:3", "1:1 Gen 2:2 Exo 3:3")]),
    ("ms", [T("ms", style="qt-s", sid="q1", who="He"), "beta", T("ms", style="qt-e", eid="q1")], '\\qt-s |sid="q1" who="He"\\*beta\\qt-e |eid="q1"\\*', None, []),
    ("unm", ["some", T("unmatched", marker="nd*"), " more", T("unmatched", marker="wj*")], "some more", "some more", []),
    ("ref", [T("ref", "Exo 3:3", loc="EXO 3:3")], "Exo 3:3", "Exo 3:3", []),
    ("fig3", [T("figure", "Cap tion", style="fig", alt="Desc", file="a2.jpg", size="col", ref="1.18")], "", "", [("fig", "Desc|a2.jpg|col|||Cap tion|1.18", "Desc|a2.jpg|col|||Cap tion|1.18")]),
    ("fig", [T("figure", "Cap tion", style="fig", desc="Desc", file="a2.jpg", size="col", loc="", copy="(c)", ref="1.18")], "", "", [("fig", "Desc|a2.jpg|col||(c)|Cap tion|1.18", "Desc|a2.jpg|col||(c)|Cap tion|1.18")]),
]
LINES = ["v", "p", "s1", "ip", "mt1", "q1", "d"]
VERSIONS = [None, "2.0", "2.5", "2.6", "3.0"]

def xml(tree, wrap=None):
    """wrap: elements go on lines of their own as long as there was no text yet (as XML writers do)"""
    out, nl = [], wrap
    for x in tree:
        if isinstance(x, str): out.append(escape(x)); nl = None; continue
        tag, attrs, kids = x
        if nl: out.append(nl)
        a = "".join(f" {k}={quoteattr(v)}" for k, v in attrs.items())
        inner = xml(kids, wrap + "  " if wrap and tag in ("para", "note", "table", "row", "sidebar") else None)
        out.append(f"<{tag}{a}>{inner}</{tag}>" if inner else f"<{tag}{a} />")
    if nl and out: out.append(nl[:-2])
    return "".join(out)

LAYOUTS = ("none", "lines", "wrap")
def usx(lines, version, layout):
    """lines: (marker, tree); verses go into the paragraph before them, table rows into a table"""
    v3 = version == "3.0"
    code = lines[0][1][0][:3]
    out, para, C, V, side = [], None, 0, None, None
    def put(x): (side[2] if side else out).append(x)
    def endv():
        nonlocal V
        if v3 and V: para[2].append(T("verse", eid=f"{code} {C}:{V}")) if para[0] == "para" else None
        V = None
    def close():
        nonlocal para
        if para: put(para); para = None
    for m, tree in lines:
        if m == "id": put(T("book", "".join(tree)[3:].strip(), **{"code" if version else "id": code}, style="id"))
        elif m == "c":
            endv(); close()
            if v3 and C: put(T("chapter", eid=f"{code} {C}"))
            C, a = tree[0], dict(tree[1]) if len(tree) > 1 else {}
            if v3: a["sid"] = f"{code} {C}"
            put(T("chapter", number=C, style="c", **a))
        elif m == "v":
            endv()
            num, _, rest = tree[0].partition(" ")
            a = {}
            if len(tree) > 1 and isinstance(tree[1], dict): a, tree = tree[1], tree[:1] + tree[2:]
            V = num
            if v3: a = {**a, "sid": f"{code} {C}:{V}"}
            kids = para[2]
            if kids and isinstance(kids[-1], str) and not kids[-1].endswith(" "): kids[-1] += " "
            kids.append(T("verse", number=num, style="v", **a))
            kids.extend(([rest] if rest else []) + list(tree[1:]))
        elif m == "tr":
            if not (para and para[0] == "table"): endv(); close(); para = T("table")
            para[2].append(T("row", tree, style="tr"))
        elif m in ("esb", "periph"):
            endv(); close()
            side = None
            x = T("sidebar", style="esb") if m == "esb" else T("periph", alt=tree[0], id="x")
            put(x); side = x
        elif m == "esbe": close(); side = None
        else:
            if V and m not in U.PARAS: endv()
            close()
            para = T("para", tree, style=m, **({"vid": f"{code} {C}:{V}"} if v3 and V else {}))
    if V: endv()
    close()
    if v3 and C: out.append(T("chapter", eid=f"{code} {C}"))
    ver = f' version="{version}"' if version else ""
    body = xml(out) if layout == "none" else xml(out, "\n  ") if layout == "wrap" else "\n" + "\n".join(xml([x]) for x in out) + "\n"
    return f'<?xml version="1.0" encoding="utf-8"?>\n<usx{ver}>{body}</usx>\n'

def usfx(lines, form):
    """The plain form of a book in USFX; form: (paragraph markers as sfm attributes?, ends of verses?, verse ids with book?, elements on lines of their own?)"""
    sfm, ends, bcv, nl = form
    code = lines[0][1][:3]
    out, para, C, V = [f"<book id={quoteattr(code)}>"], None, 0, None
    def endv():
        nonlocal V
        if V and ends: (para if para is not None else out).append("<ve />")
        V = None
    def close():
        nonlocal para
        if para is not None: out.append("".join(para) + para_end); para = None
    for m, t in lines:
        x = escape(t)
        if m == "v":
            endv()
            V, _, rest = t.partition(" ")
            para.append((" " if para[1:] and para[-1][-1:] != ">" else "") + f'<v id="{V}"' + (f' bcv="{code}.{C}.{V}"' if bcv else "") + " />" + escape(rest))
            continue
        if V and m not in U.PARAS: endv()
        if m in U.REGION_PARAS or m == "nb" or m not in ("c", "id", "ide", "h", "toc1", "s", "s1", "s2", "b", "rem", "cl", "cp"):
            close()
            tag, level = re.match(r"([a-z]+)(\d?)", m).groups()
            if tag in ("q", "d", "p") and not (sfm and tag == "p" and level): open_ = f"<{tag}" + (f' level="{level}"' if level else "") + ">"
            else: open_ = f'<p sfm="{tag}"' + (f' level="{level}"' if level else "") + (' style="x"' if sfm else "") + ">"; tag = "p"
            para, para_end = [open_, x] if x else [open_], f"</{tag}>"
            continue
        close()
        if m == "c": C = int(t); out.append(f'<c id="{C}" />')
        elif m == "id": out.append(f'<id id="{code}">{x[4:]}</id>')
        elif m == "ide": out.append(f'<ide charset="{x}" />')
        elif m == "toc1": out.append(f'<toc level="1">{x}</toc>')
        elif m in ("s", "s1", "s2"): out.append("<s" + (f' level="{m[1]}"' if m[1:] else "") + f">{x}</s>")
        elif m == "b": out.append("<b />")
        elif m == "cp": out.append(f'<cp id="{x}" />')
        else: out.append(f"<{m}>{x}</{m}>")
    endv(); close()
    out.append("</book>")
    j = "\n" if nl else ""
    return '<?xml version="1.0" encoding="utf-8"?>\n<usfx xmlns:xsi="http://eBible.org/usfx.xsd" xsi:noNamespaceSchemaLocation="usfx.xsd">\n<languageCode>eng</languageCode>' + j + j.join(out) + j + "</usfx>\n"

def load_usfx(text):
    from BibleOrgSys.Formats.USFXXMLBible import USFXXMLBible
    d = DIR / "usfx"; d.mkdir(exist_ok=True)
    (d / "Test_usfx.xml").write_text(text, encoding="utf-8")
    b = USFXXMLBible(str(d))
    b.load()
    return b

FORMS = [(False, False, False, True), (True, True, True, False), (False, True, False, False), (True, False, True, True)]

def load_usx(ctx, text, version):
    from BibleOrgSys.Formats.USXXMLBibleBook import USXXMLBibleBook
    f = DIR / "GEN.usx"
    f.write_text(text, encoding="utf-8")
    from BibleOrgSys.Bible import Bible
    b = USXXMLBibleBook(BIBLE, "GEN")
    b.load("GEN.usx", str(DIR))
    b.processLines()
    return b

def seen(b):
    return [(e.getMarker(), e.getCleanText(), e.getAdjustedText(), [(x.getType(), x.getText(), x.getCleanText()) for x in e.getExtras() or ()]) for e in b._processedLines if not U.structural(e)]

def valid(lines):
    """Verses in paragraphs only; nothing but paragraphs continues"""
    ok = False
    for m, t in lines:
        if m == "v":
            if not ok: return False
        else: ok = m in U.REGION_PARAS or m in ("nb",)
        if m == "b" and t: return False
    return True

def one(ctx, key, lines, want, version, layout):
    b = load_usx(ctx, usx(lines, version, layout), version)
    same(ctx, key, seen(b), want, lines)

def same(ctx, key, got, want, lines):
    got = [x if y[1] is not None else (x[0], None, *x[2:]) for x, y in itertools.zip_longest(got, want, fillvalue=(None,) * 4)]
    if len(got) == len(want): got = [(*x[:3], [a if b[2] is not None else (*a[:2], None) for a, b in zip(x[3], y[3])]) if x[3] and len(x[3]) == len(y[3]) else x for x, y in zip(got, want)]
    ctx.step(len(lines)); ctx.state(key)
    if got == want: return True
    k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return ctx.violation(key, f"line {k} is {got[k] if k < len(got) else 'missing'}, should be {want[k] if k < len(want) else 'absent'}", lines)

def shards(tier):
    return [("doc",) + s for s in U.documents(tier, quick=3, thorough=4)] + [("inline", l, i) for l in LINES for i in range(len(ITEMS))] + [("table", f, r) for f in itertools.product(STYLES, CELLS) for r in (1, 2)] + [("kids", i, p) for i in range(len(KIDS)) for p in ("para", "char", "note", "cell")] + [("numbers",), ("periph",)] + [("parts", i) for i in range(len(PARTS))]

def run(ctx, shard):
    global BIBLE, DIR
    DIR = ctx.scratch()
    from BibleOrgSys.Bible import Bible
    BIBLE = Bible(); BIBLE.objectTypeString = "USX"
    if shard[0] == "doc":
        for head, tokens in U.expand(shard[1:], ctx.tier):
            r = U.raw(head, tokens)
            if not valid(r): continue
            lines = [(m, [t] if t else []) for m, t in r]
            want = [(m, t, t, []) for m, t in U.expected(r)]
            for version, layout in ((None, "wrap"), ("2.0", "none"), ("2.6", "lines"), ("3.0", "none"), ("3.0", "wrap")):
                key = f"usx {version} {layout} {U.show(r)}"
                with ctx.case(key): one(ctx, key, lines, want, version, layout)
            for form in FORMS[:2] if ctx.quick else FORMS:
                key = f"usfx {form} {U.show(r)}"
                with ctx.case(key):
                    b = load_usfx(usfx(r, form))
                    if not ctx.equal(list(b.books), ["GEN"], key, "books"): continue
                    same(ctx, key, seen(b.books["GEN"]), want, r)
            if ctx.full: return
    elif shard[0] == "table": table(ctx, *shard[1:])
    elif shard[0] == "kids": kids(ctx, *shard[1:])
    elif shard[0] == "numbers": numbers(ctx)
    elif shard[0] == "periph": periph(ctx)
    elif shard[0] == "parts": parts(ctx, shard[1])
    else: inline(ctx, *shard[1:])

# ---- tables: (name, children, adjusted text, clean text, notes)
NOTE = note("f", "+", ch("ft", "Note", closed="false"))
CELLS = [("empty", [], "", "", []), ("text", ["cell"], "cell", "cell", []), ("nd", [ch("nd", "LORD")], "\\nd LORD\\nd*", "LORD", []), ("and", ["a ", ch("nd", "LORD"), " b"], "a \\nd LORD\\nd* b", "a LORD b", []),
         ("note", ["x", NOTE, " y"], "x y", "x y", [("fn", "+ \\ft Note", "Note")]), ("verse", "verse", None, None, [])]
STYLES = ["tc1", "tcr2", "th1", "thr2"]
def ids(tree, version):
    """The verse identifiers which only version 3 has"""
    out = []
    for x in tree:
        if isinstance(x, tuple):
            tag, attrs, kids = x
            if tag == "verse":
                if "eid" in attrs and version != "3.0": continue
                if "number" in attrs and version == "3.0": attrs = {**attrs, "sid": f"GEN 1:{attrs['number']}"}
            x = (tag, attrs, ids(kids, version))
        out.append(x)
    return out

def table(ctx, first, rows):
    pool = list(itertools.product(STYLES, CELLS))
    for n in range(1, 3 if ctx.quick or rows > 1 else 4):
        for rest in itertools.product(pool, repeat=n - 1):
            cells = [first] + [(st, CELLS[CELLS.index(c)]) for st, c in rest]
            if rows == 2 and n == 2 and cells[1][0] == cells[0][0]: continue
            lines, want, V = [("id", ["GEN test"]), ("c", ["1"]), ("p", []), ("v", ["1 one"])], [], 1
            exp = [("id", "GEN test", "GEN test", []), ("c", "1", "1", []), ("p", "", "", []), ("c#", "1", "1", []), ("v", "1", "1", []), ("v~", "one", "one", [])]
            for r in range(rows):
                kids, adj, clean, notes, m = [], "", "", [], "tr"
                for st, (name, tree, a, c, ns) in cells:
                    if tree == "verse":
                        V += 1
                        kids.append(T("cell", [T("verse", number=str(V), style="v"), "verse text", T("verse", eid=f"GEN 1:{V}")], style=st, align="start"))
                        adj += f"\\{st} "
                        exp.append((m, clean.rstrip() if m != "v~" or clean else None, adj.rstrip(), notes)); exp.append(("v", str(V), str(V), []))
                        adj, clean, notes, m = "verse text", "verse text", [], "v~"
                    else:
                        kids.append(T("cell", tree, style=st, align="end" if "r" in st[2:] else "start"))
                        adj += f"\\{st} {a}"; clean += c; notes = notes + ns
                exp.append((m, clean.rstrip(), adj.rstrip(), notes))
                lines.append(("tr", kids))
            lines += [("p", []), ("v", [f"{V + 1} end"])]
            exp += [("p", "", "", []), ("v", str(V + 1), str(V + 1), []), ("v~", "end", "end", [])]
            for version, layout in ((None, "wrap"), ("2.5", "none"), ("3.0", "none"), ("3.0", "wrap")):
                key = f"usx {version} {layout} {rows} rows of {' '.join(st + ':' + c[0] for st, c in cells)}"
                with ctx.case(key): one(ctx, key, [(m, ids(t, version)) for m, t in lines], exp, version, layout)
        if ctx.full: return

def numbers(ctx):
    """Alternative and published numbers of chapters and verses"""
    for ca, cp, va, vp in itertools.product([None, "3"], [None, "B"], [None, "7"], [None, "1b"]):
        for text in ([], ["text"], [ch("nd", "LORD"), " said"]):
            adj, clean = [("", ""), ("text", "text"), ("\\nd LORD\\nd* said", "LORD said")][len(text)]
            for version, layout in itertools.product(VERSIONS, LAYOUTS):
                cattr = {k: v for k, v in (("altnumber", ca), ("pubnumber", cp)) if v}
                vattr = {k: v for k, v in (("altnumber", va), ("pubnumber", vp)) if v}
                lines = [("id", ["GEN test"]), ("c", ["1", cattr]), ("p", []), ("v", ["1 ", vattr] + text), ("v", ["2 end"])]
                raw = [("id", "GEN test"), ("c", "1" + (f" \\ca {ca}\\ca*" if ca else ""))] + ([("cp", cp)] if cp else []) + [("p", ""), ("v", "1 " + (f"\\va {va}\\va* " if va else "") + (f"\\vp {vp}\\vp* " if vp else "") + adj), ("v", "2 end")]
                key = f"usx {version} {layout} {U.show(raw)}"
                with ctx.case(key): one(ctx, key, lines, seen(U.build(raw, kind="USX")), version, layout)

# ---- what an element may have in it: (name, tree, adjusted text, clean text, notes)
KIDS = [("word", ["word"], "word", "word", []), ("gap", [" "], " ", " ", []), ("after", [" end"], " end", " end", []), ("before", ["and "], "and ", "and ", []), ("nd", [ch("nd", "LORD")], "\\+nd LORD\\+nd*", "LORD", []), ("both", [ch("add", "the ", ch("nd", "ONE"))], "\\+add the \\+nd ONE\\+nd*\\+add*", "the ONE", []),
        ("note", [NOTE], "", "", [("fn", "+ \\ft Note", "Note")]), ("ref", [T("ref", "Gen 1", loc="GEN 1:1")], "Gen 1", "Gen 1", []),
        ("opt", [T("optbreak")], "//", "//", []), ("ms", [T("ms", style="ts-s", sid="a")], '\\ts-s |sid="a"\\*', None, [])]
def kids(ctx, i, place):
    for n in range(1, 4 if ctx.quick else 5):
        for rest in itertools.product(KIDS, repeat=n - 1):
            seq = [KIDS[i], *rest]
            if any(isinstance(a[1][0], str) and isinstance(b[1][0], str) for a, b in zip(seq, seq[1:])): continue
            if seq[0][0] in ("gap", "after") or seq[-1][0] in ("gap", "before"): continue
            if place == "note" and any(x[0] in ("note", "both", "ms", "opt") for x in seq): continue
            tree, adj, clean, notes = [y for x in seq for y in x[1]], "".join(x[2] for x in seq), None if any(x[3] is None for x in seq) else "".join(x[3] for x in seq), [y for x in seq for y in x[4]]
            plain = adj.replace("\\+", "\\").replace("\\nd ONE\\nd*", "\\+nd ONE\\+nd*")
            if place == "para" and plain.startswith(" "): continue # a note only before the space
            if place == "para": lines, want = [("q1", tree), ("v", ["1 end"])], [("q1", "", "", []), ("p~", clean and clean.rstrip(), plain.rstrip(), notes)]
            elif place == "char": lines, want = [("q1", [ch("wj", *tree)]), ("v", ["1 end"])], [("q1", "", "", []), ("p~", None, f"\\wj {adj}\\wj*", notes)]
            elif place == "note": lines, want = [("q1", ["x", note("f", "+", ch("ft", *tree, closed="false")), " y"]), ("v", ["1 end"])], [("q1", "", "", []), ("p~", "x y", "x y", [("fn", f"+ \\ft {adj}", None)])]
            else: lines, want = [("tr", [T("cell", tree, style="tc1", align="start"), T("cell", "next", style="tc2", align="start")]), ("p", []), ("v", ["1 end"])], [("tr", None if clean is None else clean + "next", f"\\tc1 {plain}\\tc2 next", notes), ("p", "", "", [])]
            lines = [("id", ["GEN test"]), ("c", ["1"])] + lines
            want = [("id", "GEN test", "GEN test", []), ("c", "1", "1", [])] + want + [("c#", "1", "1", []), ("v", "1", "1", []), ("v~", "end", "end", [])]
            for version, layout in ((None, "wrap"), ("2.5", "none"), ("3.0", "none"), ("3.0", "wrap")):
                key = f"usx {version} {layout} in {place}: {' '.join(x[0] for x in seq)}"
                with ctx.case(key): one(ctx, key, lines, want, version, layout)
        if ctx.full: return

PARTS = [("p", ["para"]), ("s1", ["head"]), ("esb", []), ("esbe", []), ("c", None), ("v", None), ("q1", []), ("b", [])]
PERIPH = [("periph", ["Title Page"]), ("periph", ["Preface"]), ("mt1", ["Big"]), ("p", ["para"]), ("b", [])]
def periph(ctx):
    for n in range(1, 4 if ctx.quick else 6):
        for seq in itertools.product(PERIPH, repeat=n):
            lines = [("id", ["FRT test"]), *seq]
            want = [(m, t, t, []) for m, t in U.expected([(m, "".join(t) + ('|id="x"' if m == "periph" else "")) for m, t in lines])]
            for version, layout in (("2.5", "lines"), ("3.0", "none"), ("3.0", "wrap")):
                key = f"usx {version} {layout} {' '.join(m + ' ' + ''.join(t) for m, t in lines)}"
                with ctx.case(key): one(ctx, key, lines, want, version, layout)
        if ctx.full: return

def parts(ctx, i):
    """Side bars between the paragraphs, and books of peripheral parts"""
    for n in range(1, 5 if ctx.quick else 6):
        for rest in itertools.product(PARTS, repeat=n - 1):
            lines, C, V, side, ok, para = [("id", ["GEN test"]), ("c", ["1"])], 1, 0, False, True, False
            for m, t in (PARTS[i], *rest):
                if m == "c":
                    C, V, para = C + 1, 0, False; lines.append(("c", [str(C)])); ok = ok and not side; continue
                if m == "v":
                    V += 1; ok = ok and para and not side; lines.append(("v", [f"{V} verse{V}"])); continue
                if m == "esb": ok = ok and not side; side = True
                if m == "esbe": ok = ok and side; side = False
                para = m in ("p", "q1")
                lines.append((m, list(t)))
            if not ok or side: continue
            raw = [(m, "".join(t)) for m, t in lines]
            want = [(m, t, t, []) for m, t in U.expected(raw)]
            for version, layout in (("2.5", "lines"), ("3.0", "none"), ("3.0", "wrap")):
                key = f"usx {version} {layout} {U.show(raw)}"
                with ctx.case(key): one(ctx, key, lines, want, version, layout)
        if ctx.full: return

def inline(ctx, line, i):
    for k in range(2 if ctx.quick else 3):
        for rest in itertools.product(ITEMS, repeat=k):
            seq = [ITEMS[i], *rest]
            tree = []
            for x in seq: tree += ([" "] if tree else []) + x[1]
            adj, clean, notes = " ".join(x[2] for x in seq).rstrip(), None if any(x[3] is None for x in seq) else " ".join(x[3] for x in seq).rstrip(), [n for x in seq for n in x[4]]
            Q = ["QQ"]
            def doc(t):
                first = [("id", ["GEN test"])]
                body = [("c", ["1"]), ("p", []), ("v", ["1 end"])]
                if line == "v": return first + [("c", ["1"]), ("p", []), ("v", ["1 "] + t), ("v", ["2 end"])]
                if line in ("p", "q1"): return first + [("c", ["1"]), (line, t), ("v", ["1 end"])]
                if line in ("s1", "d"): return first + [("c", ["1"]), (line, t), ("p", []), ("v", ["1 end"])]
                return first + [(line, t)] + body
            want = []
            for m, t in U.expected([(m, "".join(t)) for m, t in doc(Q)]):
                want.append((m, clean, adj, notes) if t == "QQ" else (m, t, t, []))
            for version in VERSIONS:
                for layout in LAYOUTS:
                    key = f"usx {version} {layout} {line}: {' '.join(x[0] for x in seq)}"
                    with ctx.case(key): one(ctx, key, doc(tree), want, version, layout)
            if ctx.full: return
