"""U04: verse-text files of every simple format are read completely: all bounded sequences of books, chapters and verses, with each kind of in-line text."""
import itertools, json, re
from xml.sax.saxutils import escape
import lib

PROP = dict(
    title="Files in simple verse formats are read completely, each verse under its number",
    statement="Loading a file in Unbound, YET, CSV, DrupalBible, Forge for SwordSearcher, verse-per-line, OpenSong, Zefania, Haggai or VerseView format gives exactly the books, chapters and verses in the file, in their order, "
              "each verse with its own whole text and its notes taken out of it; header, comment and blank lines give no text, and a byte-order mark is accepted (where the format has one).",
    over=["inputs", "configurations"],
    qtext="all bounded sequences of new verses, chapters and books (also skipping numbers) written in every variant of ten formats; all sequences of in-line items; every book of the canon by itself",
    why="No test loads most of these formats; every loader keeps its own last-book/chapter/verse state across lines.",
    files=[f"BibleOrgSys/Formats/{f}.py" for f in ("UnboundBible", "YETBible", "CSVBible", "DrupalBible", "ForgeForSwordSearcherBible", "VPLBible", "OpenSongXMLBible", "ZefaniaXMLBible", "HaggaiXMLBible", "VerseViewXMLBible")],
    mechanism=[("load of each format class", "BibleOrgSys/Formats")],
)
BOUNDS = "sequences of <=5 (XML formats <=4) / <=6 verses: each next one is one of {next verse, skip a verse, next chapter, skip a chapter, next book, far book}; in-line sequences of <=2 / <=3 items; 66 single-verse books; every header, comment, blank-line and quoting variant of each format"

BOM = "\ufeff"
BOOKS = "GEN EXO PSA MAT JDE".split()
ALL = ("GEN EXO LEV NUM DEU JOS JDG RUT SA1 SA2 KI1 KI2 CH1 CH2 EZR NEH EST JOB PSA PRO ECC SNG ISA JER LAM EZE DAN HOS JOL AMO OBA JNA MIC NAH HAB ZEP HAG ZEC MAL "
       "MAT MRK LUK JHN ACT ROM CO1 CO2 GAL EPH PHP COL TH1 TH2 TI1 TI2 TIT PHM HEB JAM PE1 PE2 JN1 JN2 JN3 JDE REV").split()
NAMES = ("Genesis|Exodus|Leviticus|Numbers|Deuteronomy|Joshua|Judges|Ruth|1 Samuel|2 Samuel|1 Kings|2 Kings|1 Chronicles|2 Chronicles|Ezra|Nehemiah|Esther|Job|Psalms|Proverbs|Ecclesiastes|Song of Solomon|Isaiah|Jeremiah|"
         "Lamentations|Ezekiel|Daniel|Hosea|Joel|Amos|Obadiah|Jonah|Micah|Nahum|Habakkuk|Zephaniah|Haggai|Zechariah|Malachi|Matthew|Mark|Luke|John|Acts|Romans|1 Corinthians|2 Corinthians|Galatians|Ephesians|Philippians|Colossians|"
         "1 Thessalonians|2 Thessalonians|1 Timothy|2 Timothy|Titus|Philemon|Hebrews|James|1 Peter|2 Peter|1 John|2 John|3 John|Jude|Revelation").split("|")
NAME = dict(zip(ALL, NAMES)); NUMBER = {b: i + 1 for i, b in enumerate(ALL)}
SS = ("Ge Ex Le Nu De Jos Jdg Ru 1Sa 2Sa 1Ki 2Ki 1Ch 2Ch Ezr Ne Es Job Ps Pr Ec Song Isa Jer La Eze Da Ho Joe Am Ob Jon Mic Na Hab Zep Hag Zec Mal Mt Mr Lu Joh Ac Ro 1Co 2Co Ga Eph Php Col 1Th 2Th 1Ti 2Ti Tit Phm Heb Jas 1Pe 2Pe 1Jo 2Jo 3Jo Jude Re").split()
SS = dict(zip(ALL, SS))
UNBOUND = {b: f"{i:02}{'O' if i < 40 else 'N'}" for b, i in NUMBER.items()}
DRUPAL = ("GEN EXO LEV NUM DEU JOS JUD RUT 1SA 2SA 1KI 2KI 1CH 2CH EZR NEH EST JOB PSA PRO ECC SON ISA JER LAM EZE DAN HOS JOE AMO OBA JON MIC NAH HAB ZEP HAG ZEC MAL MAT MAR LUK JOH ACT ROM 1CO 2CO GAL EPH PHI COL 1TH 2TH 1TI 2TI TIT PHM HEB JAM 1PE 2PE 1JO 2JO 3JO JUDE REV").split()

def plain(t): return t

# Items: (name, {format: source}, clean text, notes)   source None: the plain text
WORDS = [("word", "alpha", "alpha"), ("punct", "“delta,” he said;", "“delta,” he said;"), ("quote", "say 'go' now", "say 'go' now"), ("digit", "12 men 3:4", "12 men 3:4"), ("acc", "Señor Ωμέγα", "Señor Ωμέγα"), ("comma", "one, two, (three)", "one, two, (three)")]
class F: min = 1       # the lines a file must have to be recognised in a folder

def lines(*a): return "\n".join(a) + "\n"

class Unbound(F):
    mod, cls, ext = "UnboundBible", "UnboundBible", "x_utf8.txt"
    variants = [(n, c) for n in (4, 6, 9) for c in ("", "blank", "comment")]
    inline = WORDS
    def write(self, vs, var):
        n, extra = var
        out = ["#THE UNBOUND BIBLE (www.unboundbible.org)", "#name\tTest", "#filetype\tUnmapped-BCVS", "#columns\tx"]
        for i, (b, c, v, t) in enumerate(vs):
            if extra == "blank" and i: out.append("")
            if extra == "comment" and i: out.append("#note\tmiddle")
            r = [UNBOUND[b], str(c), str(v)]
            out.append("\t".join(r + [t] if n == 4 else r + ["", str(i * 10), t] if n == 6 else r + r + ["", str(i * 10), t]))
        return lines(*out)

class YET(F):
    mod, cls, ext = "YETBible", "YETBible", "x.yet"
    variants = ["", "blank", "para", "head"]
    inline = WORDS + [("wj", "@6words@5 then", "words then"), ("add", "of @9it@7 all", "of it all"), ("fn", "base@<f{n}@>@/ more", "base more"), ("xr", "ref@<x{n}@>@/ more", "ref more"),
                      ("q1", "@1line", "line"), ("q2", "@2lines", "lines"), ("q4", "@4liness", "liness"), ("m", "@0margin", "margin"), ("p", "@^para", "para")]
    def write(self, vs, var):
        out = ["info\tshortName\tTEST", "info\tlongName\tTest Bible", "info\tlocale\tin"]
        for b in dict.fromkeys(v[0] for v in vs): out.append(f"book_name\t{NUMBER[b]}\t{NAME[b]}" + ("\tab" if var == "head" else ""))
        notes = []
        for i, (b, c, v, t) in enumerate(vs):
            if var == "blank": out.append("")
            k = 0
            while "{n}" in t:
                k += 1
                kind = "footnote" if t[t.index("{n}") - 1] == "f" else "xref"
                t = t.replace("{n}", str(k), 1)
                notes.append(f"{kind}\t{NUMBER[b]}\t{c}\t{v}\t{k}\tnote @9it@7 {k}")
            if "@" in t and not t.startswith("@@"): t = "@@" + t
            if var == "para" : t = "@@@^" + t.removeprefix("@@")
            out.append(f"verse\t{NUMBER[b]}\t{c}\t{v}\t{t}")
            if var == "head": notes += [f"pericope\t{NUMBER[b]}\t{c}\t{v}\tHeading {i}", "parallel\tMat 1:1", "parallel\tLuk 2:2"]
        return lines(*out, *notes)

class CSV(F):
    mod, cls, ext = "CSVBible", "CSVBible", "x.csv"
    variants = [(h, k, e) for h in ('"Book",', "Book,", '"Book"|', "Book|") for k in ("name", "number", "code") for e in ("", "blank", "comment")] + [(h, "name", e) for h in ("tab4", "ref2") for e in ("", "blank", "comment")]
    inline = WORDS + [("rtf", "stop\\rquote\\rdblquote dash\\emdash\\ldblquote", "stop’” dash—“"), ("rtf2", "a\\endash\\lquote", "a–‘"), ("hex", "se\\'f1or", "señor"), ("uni", "a\\u253?b", "aýb")]
    def write(self, vs, var):
        h, kind, extra = var
        sep = "|" if "|" in h else "\t" if h in ("tab4", "ref2") else ","
        q = (lambda s: f'"{s}"') if h[0] == '"' else str
        out = [sep.join(q(x) for x in ("Book", "Chapter", "Verse", "Scripture"))] if h[0] not in "tr" else []
        if extra == "comment": out.insert(0, "# made by a test")
        for i, (b, c, v, t) in enumerate(vs):
            if extra == "blank" and i: out.append("")
            if extra == "comment" and i: out.append("# note, more")
            if h == "ref2": out.append(f"{NAME[b]} {c}:{v}\t{t}"); continue
            out.append(sep.join(q(x) for x in ({"name": NAME[b], "number": NUMBER[b], "code": b}[kind], c, v, t)))
        return lines(*out)

class Drupal(F):
    mod, cls, ext = "DrupalBible", "DrupalBible", "x.bc"
    variants = ["", "bom", "blank", "comment"]
    inline = WORDS + [("it", "of <it> all", "of it all")]
    def write(self, vs, var):
        from BibleOrgSys import BibleOrgSysGlobals as G
        code = lambda b: G.loadedBibleBooksCodes.getDrupalBibleAbbreviation(b).upper()
        out = [(BOM if var == "bom" else "") + "*Bible", "#shortname fullname language", "TST|Test Bible|en", "", "*Chapter", "#book,fullname,shortname,chap-count"]
        for b in dict.fromkeys(v[0] for v in vs): out.append(f"{code(b)}|{NAME[b]}|{code(b)}|3")
        out += ["", "*Context", "#Book,Chapter,Verse,LineMark,Context"]
        for b, c, v, t in vs:
            if var == "blank": out.append("")
            if var == "comment": out.append("#comment|1|1||x")
            out.append(f"{code(b)}|{c}|{v}||{t}")
        return lines(*out)

class Forge(F):
    mod, cls, ext = "ForgeForSwordSearcherBible", "ForgeForSwordSearcherBible", "x.txt"
    variants = ["", "bom", "blank", "comment", "meta", "metaempty", "para", "long"]
    inline = WORDS + [("add", "of [it] all", "of it all"), ("fn", "base{a note} more", "base more"), ("xr", "ref(<scripref>Pr 2:7</scripref>) more", "ref more"), ("wj", "+r/red words-r/ then", "red words then"), ("xr2", "ref<scripref>Ex 2:7</scripref> more", "ref more")]
    def write(self, vs, var):
        out = [(BOM if var == "bom" else "") + "; TITLE: Test Bible", "; ABBREVIATION: TST", "; HAS ITALICS", "; HAS FOOTNOTES", "; HAS REDLETTER"]
        if var.startswith("meta"): out += ["$$ {Info}"] + ([] if var == "metaempty" else ["The information", "goes on"])
        for i, (b, c, v, t) in enumerate(vs):
            if var == "blank": out.append("")
            if var == "comment": out.append("; a comment")
            out += [f"$$ {NAME[b] if var == 'long' else SS[b]} {c}:{v}", ("¶ " if var == "para" else "") + t]
        return lines(*out)

class VPL(F):
    mod, cls, ext = "VPLBible", "VPLBible", "x.txt"
    min = 4
    variants = [(k, e) for k in (1, 2, 3, 5) for e in ("", "bom")] + [(k, "blank") for k in (1, 2, 3)] + [(1, "para"), (1, "title"), (3, "header")]
    inline = WORDS
    inline1 = WORDS + [("add", "of [it] all", "of it all"), ("wj", "<red words> then", "red words then")]
    def write(self, vs, var):
        kind, extra = var
        bom = BOM if extra == "bom" else ""
        out = []
        if kind == 1:
            for b, c, v, t in vs: out.append(f"{SS[b]} {c}:{v} " + ("¶ " if extra == "para" else "") + ("«A psalm title» " if extra == "title" and b == "PSA" and v == 1 else "") + t)
        elif kind in (2, 3):
            if kind == 3: out = ["# language_name:\tEnglish", "# closest ISO 639-3:\teng", "# year_short:\tNot available", "# year_long:\t1900", "# title:\tTest Bible", "# URL:\tNot available", "# copyright_short:\tPD", "# copyright_long:\tPublic domain"] + (["# notes: none"] if extra == "header" else [])
            for b, c, v, t in vs: out.append(f"{NUMBER[b]:02}{c:03}{v:03}\t{t}")
        else:
            out = ["Test Bible"]
            last = None
            for b, c, v, t in vs:
                if (b, c) != last:
                    if not last or last[0] != b: out += ["", "", NAME[b], ""]
                    else: out.append("")
                    out += [f"{'Psalm' if b == 'PSA' and c > 1 else 'Chapter'} {c}"]; last = b, c
                out.append(f"{v} {t}")
        if extra == "blank": out = [x for o in out for x in (o, "")]
        out[0] = bom + out[0]
        return lines(*out)

def xml(items, t):
    return t

class OpenSong(F):
    mod, cls, ext, min = "OpenSongXMLBible", "OpenSongXMLBible", "x", 2
    variants = ["flat", "pretty"]
    inline = WORDS + [("it", "of <i>it</i> all", "of it all"), ("itend", "then <i>it</i>", "then it"), ("amp", "salt &amp; light", "salt & light"), ("poetry", "line one\nline two", "line one line two")]
    b, c, v = '<b n="{name}">', '<c n="{c}">', '<v n="{v}">'
    eb, ec, ev = "</b>", "</c>", "</v>"
    top, end = '<bible>', "</bible>"
    def write(self, vs, var):
        nl = "\n  " if var == "pretty" else ""
        if self.cls == "OpenSongXMLBible": out = ['<?xml version="1.0" encoding="UTF-8"?>\n' + self.top]
        else: out = ['<?xml version="1.0" encoding="utf-8"?>\n' + self.top]
        last = (None, None)
        for i, (b, c, v, t) in enumerate(vs):
            if b != last[0]:
                if last[0]: out += [self.ec, self.eb]
                out.append(self.b.format(name=NAME[b], number=NUMBER[b]))
            if (b, c) != last:
                if last[0] == b: out.append(self.ec)
                out.append(self.c.format(c=c))
            last = b, c
            out.append(self.v.format(v=v) + t + self.ev)
        return nl.join(out + [self.ec, self.eb]) + "\n" + self.end + "\n"

class VerseView(OpenSong):
    mod, cls, ext, min = "VerseViewXMLBible", "VerseViewXMLBible", "x.xml", 3
    inline = WORDS + [("amp", "salt &amp; light", "salt & light")]
    top, end = '<bible>\n<fname>x.xml</fname>\n<revision>1</revision><title>Test</title><font>Arial</font><copyright>PD</copyright><sizefactor>1</sizefactor>', "</bible>"
    whole = True           # books are checked by their number

class Zefania(OpenSong):
    mod, cls, ext, min = "ZefaniaXMLBible", "ZefaniaXMLBible", "x.xml", 7
    inline = WORDS + [("amp", "salt &amp; light", "salt & light"), ("style", 'of <STYLE css="font-style:italic">it</STYLE> all', "of it all"), ("nd", 'the <STYLE id="cl:divineName">Lord</STYLE>', "the Lord"),
                      ("note", 'base<NOTE type="x-studynote">a note</NOTE> more', "base more"), ("div", "base<DIV><NOTE>a note</NOTE></DIV>", "base"), ("br", 'one<BR art="x-nl"/>two', "one two"), ("gr", 'a <gr str="123">word</gr> here', "a word here")]
    b, c, v = '<BIBLEBOOK bnumber="{number}" bname="{name}" bsname="x">', '<CHAPTER cnumber="{c}">', '<VERS vnumber="{v}">'
    eb, ec, ev = "</BIBLEBOOK>", "</CHAPTER>", "</VERS>"
    top, end = '<XMLBIBLE biblename="Test" type="x-bible">\n<INFORMATION>\n<title>Test</title>\n<creator>me</creator>\n<language>ENG</language>\n</INFORMATION>', "</XMLBIBLE>"

class Haggai(Zefania):
    mod, cls, ext, min = "HaggaiXMLBible", "HaggaiXMLBible", "x.xml", 2
    top = '<XMLBIBLE xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="haggai_20130620.xsd" biblename="Test">\n<INFORMATION>\n<title>Test</title>\n</INFORMATION>'
    inline = WORDS + [("amp", "salt &amp; light", "salt & light"), ("style", 'of <STYLE fs="emphasis">it</STYLE> all', "of it all"), ("note", "base<NOTE>a note</NOTE> more", "base more"), ("notev", 'base<NOTE type="variant">a note</NOTE> more', "base more"), ("br", 'one<BR art="x-nl"/>two', "one two")]
    c, v, ec, ev = '<CHAPTER cnumber="{c}"><PARAGRAPH>', '<VERSE vnumber="{v}">', "</PARAGRAPH></CHAPTER>", "</VERSE>"

FORMATS = {c.__name__: c() for c in (Unbound, YET, CSV, Drupal, Forge, VPL, OpenSong, VerseView, Zefania, Haggai)}

def setup(tier):
    import importlib
    global G
    G = lib.bos()
    for f in FORMATS.values():
        m = importlib.import_module("BibleOrgSys.Formats." + f.mod)
        f.load, f.check = getattr(m, f.cls), getattr(m, f.cls + "FileCheck")

STEPS = ["v", "V", "c", "C", "b", "B"]

def history(steps, books):
    """The (book, chapter, verse) of a sequence of steps."""
    out, b, c, v = [], 0, 1, 0
    for s in ("v",) + steps:
        if s == "v": v += 1
        elif s == "V": v += 2
        elif s in "cC": c += 1 if s == "c" else 2; v = 1
        else:
            b += 1 if s == "b" else 2
            if b >= len(books): return None
            c, v = (1, 1) if s == "b" else (2, 3)
        out.append((books[b], c, v))
    return out

def shards(tier):
    return [(kind, name, var) for name, f in FORMATS.items() for var in range(len(f.variants)) for kind in ["steps" + x for x in ([""] if tier == "quick" else STEPS + [""])] + ["inline", "books"]]

def norm(s): return " ".join(s.split())

def read(B):
    res = []
    for BBB, book in B.books.items():
        C = V = None
        for e in book._processedLines:
            m, t = e.getMarker(), e.getCleanText()
            if m == "c": C, V = t, None
            elif m == "v": V = t; res.append([BBB, C, V, ""])
            elif m in ("v~", "p~"):
                if V is None: res.append([BBB, C, "-", ""]); V = "-"
                res[-1][3] += " " + t
    return [(b, c, v, norm(t)) for b, c, v, t in res]

def one(ctx, name, var, vs, want, via="load"):
    f = FORMATS[name]
    text = f.write(vs, f.variants[var])
    if via == "folder" and (f.variants[var][:1] == (5,) or name == "CSV" and not text.startswith(('"Book","Ch', "Book,Ch", "Book|Ch")) or text.count("\n") < f.min): return
    key = f"{name} {f.variants[var]} {via}: {lib.short(text, 3000)}"
    folder = ctx.scratch("in")
    (folder / f.ext).write_text(text, "utf-8")
    with ctx.case(key, text, 60):
        if via == "load":
            name_ = f.ext.removesuffix("_utf8.txt") if name == "Unbound" else f.ext[:-4] if name in ("YET", "Forge", "CSV", "VPL") else f.ext[:-3] if name == "Drupal" else f.ext
            B = f.load(str(folder), name_, encoding="utf-8"); B.load()
        else:
            B = f.check(str(folder), autoLoad=True, autoLoadBooks=True)
            if not ctx.expect(B not in (None, False) and not isinstance(B, int), key, lambda: f"the file is not recognised in its folder ({B!r})", text): return
        got = read(B)
        ctx.step(len(vs)); ctx.trace()
        ctx.state(name, var, via, tuple(x[:3] for x in got))
        ctx.equal(got, want, key, "verses", text)
        if name == "VPL" and "title" in f.variants[var]:
            C, titles = None, []
            for b, book in B.books.items():
                C = None
                for e in book._processedLines:
                    if e.getMarker() == "c": C = e.getCleanText()
                    if e.getMarker() == "d": titles.append((b, C, e.getCleanText()))
            ctx.equal(titles, [(b, str(c), "A psalm title") for b, c, v, t in vs if b == "PSA" and v == 1], key, "psalm titles", text)
        if f.variants[var] == "head":
            heads = [(b, e.getCleanText()) for b, book in B.books.items() for e in book._processedLines if e.getMarker() == "s1"]
            ctx.equal(heads, [(b, f"Heading {i}") for i, (b, c, v, t) in enumerate(vs)], key, "headings", text)
            C = None
            for b, book in B.books.items():
                C = None
                for e in book._processedLines:
                    if e.getMarker() == "c": C = e.getCleanText()
                    if e.getMarker() == "s1": i = int(e.getCleanText().split()[1]); ctx.expect(C == str(vs[i][1]), key, lambda: f"heading of {vs[i][:3]} stands in chapter {C}", text)

def run(ctx, shard):
    kind, name, var = shard
    f = FORMATS[name]
    if kind.startswith("steps"):
        n = 5 if not ctx.quick else 3 if isinstance(f, OpenSong) else 4
        for k in range(0, n + 1):
            for steps in itertools.product(STEPS, repeat=k):
                if not ctx.quick and (steps[:1] or ("",))[0] != kind[5:]: continue
                if name == "VerseView" and "B" in steps: continue       # its books are numbered by their place
                h = history(steps, ALL if name == "VerseView" else BOOKS)
                if h is None: continue
                vs = [(b, c, v, f"word{i} text{i}x") for i, (b, c, v) in enumerate(h)]
                if isinstance(f, VPL) and f.variants[var][0] == 5 and gap(h): continue
                want = [(b, str(c), str(v), t) for b, c, v, t in vs]
                one(ctx, name, var, vs, want)
                if k <= 2: one(ctx, name, var, vs, want, "folder")
            if ctx.full: return
    elif kind == "inline":
        items = f.inline1 if isinstance(f, VPL) and f.variants[var][0] == 1 else f.inline
        for k in range(1, 3 if ctx.quick else 4):
            for seq in itertools.product(items, repeat=k):
                src, clean = " ".join(x[1] for x in seq), norm(" ".join(x[2] for x in seq))
                vs = [("GEN", 1, 1, src), ("GEN", 1, 2, "second"), ("GEN", 2, 1, src)]
                one(ctx, name, var, vs, [("GEN", "1", "1", clean), ("GEN", "1", "2", "second"), ("GEN", "2", "1", clean)])
            if ctx.full: return
    else:
        for b in ALL if name != "VerseView" else ():
            vs = [(b, 1, 1, "the first"), (b, 1, 2, "the second")]
            one(ctx, name, var, vs, [(b, "1", "1", "the first"), (b, "1", "2", "the second")])
        vs = [(b, 1, 1, f"verse {b}") for b in ALL]
        one(ctx, name, var, vs, [(b, "1", "1", f"verse {b}") for b in ALL])

def gap(h):
    return any((b, c) == (b0, c0) and v != v0 + 1 for (b, c, v), (b0, c0, v0) in zip(h[1:], h))
