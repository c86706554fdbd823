"""R07: USFM markers: the two marker tables, the markers in a line of text, and removing or replacing marked fields."""
import itertools, re
import xml.etree.ElementTree as ET
import lib

PROP = dict(
    title="USFM markers are what the tables define, and are found where a text has them",
    statement="For each marker which the USFM2 or USFM3 table defines, with or without its allowed number, every query (validity, level, closing, content, nesting, numbering, place, deprecation, raw and standard form, names) answers as the table says, any other string is no marker, "
              "and every marker list has exactly the markers meeting its definition. Searching a text returns each of its markers once, in order, with its position, kind, full form, the markers then in force, the following text and the entry which ends it; the pieces put together are the text again. "
              "Removing or replacing the fields of a marker changes those fields alone, always ends, and leaves text without that marker as it is.",
    over=["inputs", "configurations"],
    qtext="all markers of both tables x all queries and list options; all texts of bounded length over markers, closing markers, nested markers and words",
    why="The tests look up some markers and parse a few lines; the answers for the other markers and for unusual sequences (nested, repeated, unclosed markers) have never been compared with the tables.",
    files=["BibleOrgSys/Reference/USFM3Markers.py", "BibleOrgSys/Reference/USFM2Markers.py"],
    mechanism=[("USFM3Markers/USFM2Markers queries, getMarkerListFromText", "BibleOrgSys/Reference/USFM3Markers.py"), ("removeUSFMCharacterField/replaceUSFMCharacterFields", "BibleOrgSys/Reference/USFM3Markers.py"), ("importDataToPython", "BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py")],
)
BOUNDS = "complete over the two tables (all markers, numbers, list options); texts: all sequences of <=4 (quick) / <=5 (thorough) of 18 pieces, both tables, with and without initial text; removing: all sequences of <=5 / <=6 of 10 pieces x 4 markers x 3 modes; replacing: <=4 / <=5 of 11 pieces x 3 lists"
ASSUMPTIONS = ["the XML tables are the specification", "a marker is ended by a space, a star or the end of the text (milestones ended by \\* are not parsed)", "the fixed set of introduction paragraphs also has \\iqt", "a nested field is removed only together with the field around it"]

# ---- the model of the tables
class Table:
    def __init__(self, n):
        self.n, self.rows, self.form = n, {}, {}
        for el in ET.parse(lib.DATA / f"USFM{n}Markers.xml").getroot().findall("USFMMarker"):
            r = {c.tag: c.text for c in el}
            self.rows[r["marker"]] = r
        for m, r in self.rows.items():
            self.form[m] = m
            for f in self.numbers(m): self.form[f] = m
    def numbers(self, m):
        top = self.rows[m]["highestNumberSuffix"]
        if top == "None": return []
        a, b = (m[:-2], m[-2:]) if m.endswith(("-s", "-e")) else (m, "")
        return [f"{a}{i}{b}" for i in range(1, int(top) + 1)]
    def select(self, which, keep):
        out = []
        for m, r in self.rows.items():
            if not keep(m, r): continue
            ns = self.numbers(m)
            out += [m] if which == "raw" or not ns else ns if which == "numbered" else [m] + ns
        return out

def module(n):
    import BibleOrgSys.Reference.USFM2Markers as M2, BibleOrgSys.Reference.USFM3Markers as M3
    return (M2 if n == 2 else M3)

TABLES, MARKERS = {}, {}
def setup(tier):
    global G
    G = lib.bos()
    for n in (2, 3):
        TABLES[n] = Table(n)
        MARKERS[n] = getattr(module(n), f"USFM{n}Markers")().loadData()

PIECES = ["\\p ", "\\q1 ", "\\nd ", "\\nd*", "\\+nd ", "\\+nd*", "\\f ", "\\f*", "\\ft ", "\\fq ", "\\+w ", "word", " ", "\\", "\\+", "\\nd", "\\+wj", "*"]
REMOVE = ["\\x ", "\\x*", "\\xt ", "\\+nd ", "\\+nd*", "\\nd ", "\\nd*", "word", " ", "\\xt*"]
REPLACE = ["\\nd ", "\\nd*", "\\+nd ", "\\+nd*", "\\add ", "\\add*", "\\x ", "\\x*", "a", " ", "\\+add "]
LISTS = [((("nd",), "<b>", "</b>"),), ((("add", "nd"), "", ""), (("x",), "(", ")")), ((("nd",), "\\add ", "\\add*"), (("add",), "<i>", "</i>"))]

def shards(tier):
    k = 4 if tier == "quick" else 5
    s = [("table", n, q) for n in (2, 3) for q in ("query", "lists", "static")]
    s += [("scan", n, k, i, j) for n in (2, 3) for i in range(len(PIECES)) for j in (range(len(PIECES)) if k == 5 else [None])]
    s += [("remove", n, k + 1, i) for n in (2, 3) for i in range(len(REMOVE))]
    s += [("replace", n, k, i) for n in (2, 3) for i in range(len(REPLACE))]
    return s

# ---- the tables
def norm(x): return tuple(x) if isinstance(x, list) else x
def call(f, *a):
    try: return norm(f(*a))
    except KeyError: return "KeyError"

def queries(ctx, n):
    T, M = TABLES[n], MARKERS[n]
    yes = lambda s: s == "Yes"
    strings = list(T.form)
    for m in list(T.form):
        strings += [m + "0", m + "1", m + "9", m.upper(), "\\" + m, m + "*", "+" + m, m + " "]
        if m[-1:].isdigit(): strings.append(m[:-1] + str(int(m[-1]) + 1))
    strings += ["", " ", "zzz", "1", "-s", "qt-", "qt-s1", "v~", "¬v", "None"]
    for m in dict.fromkeys(strings):
        raw = T.form.get(m)
        r = T.rows.get(raw)
        want = dict(contains=r is not None, isValidMarker=r is not None)
        if r is None:
            for q in ("isNewlineMarker", "isInternalMarker", "isNoteMarker", "isDeprecatedMarker", "isCompulsoryMarker", "isNumberableMarker", "isNestingMarker", "isPrinted", "getMarkerClosureType", "getMarkerContentType"): want[q] = False
            for q in ("toRawMarker", "toStandardMarker", "markerOccursIn", "getMarkerEnglishName", "getMarkerDescription"): want[q] = "KeyError"
        else:
            want.update(isNewlineMarker=r["level"] == "Newline", isInternalMarker=r["level"] == "Internal", isNoteMarker=r["level"] == "Note", isDeprecatedMarker=yes(r["deprecated"]), isCompulsoryMarker=yes(r["compulsory"]),
                        isNumberableMarker=r["highestNumberSuffix"] != "None", isNestingMarker=yes(r["nests"]), isPrinted=yes(r["printed"]), getMarkerClosureType={"No": "N"}.get(r["closed"], r["closed"][0]), getMarkerContentType=r["hasContent"][0],
                        toRawMarker=raw, toStandardMarker=T.numbers(raw)[0] if m == raw and T.numbers(raw) else m, markerOccursIn=r["occursIn"], getMarkerEnglishName=r["nameEnglish"], getMarkerDescription=r.get("description"))
        with ctx.case((n, m)):
            got = {q: (m in M) if q == "contains" else call(getattr(M, q), m) for q in want}
            ctx.count("validations_ok")
            bad = {q: (got[q], want[q]) for q in want if got[q] != want[q]}
            ctx.expect(not bad, (n, m), lambda: "answers (got, defined): " + repr(bad))
        ctx.state((n, m))

def lists(ctx, n):
    T, M = TABLES[n], MARKERS[n]
    nl = lambda m, r: r["level"] == "Newline"
    want = {"len": len(T.form), "items": T.select("numbered", lambda m, r: True),
            "Raw": T.select("raw", nl), "Numbered": T.select("numbered", nl), "Combined": T.select("all", nl),
            "CanonicalText": T.select("numbered", lambda m, r: nl(m, r) and r["occursIn"] == "Canonical Text"),
            "internal": T.select("raw", lambda m, r: r["level"] == "Internal"), "note": T.select("raw", lambda m, r: r["level"] == "Note"),
            "occurs": list(dict.fromkeys(r["occursIn"] for r in T.rows.values()))}
    get = {"len": lambda: len(M), "items": lambda: [M[i] for i in range(len(want["items"]))], "internal": M.getInternalMarkersList, "note": M.getNoteMarkersList, "occurs": M.getOccursInList}
    for k, w in want.items():
        with ctx.case((n, k)):
            for turn in (1, 2):
                g = get[k]() if k in get else M.getNewlineMarkersList(k)
                ctx.equal(sorted(g) if isinstance(g, list) else g, sorted(w) if isinstance(w, list) else w, (n, k), f"list {k} (call {turn})")
            ctx.count("validations_ok")
        ctx.state((n, k))
    places = ("Text", "Canonical Text", "Poetry", "Table row", "Introduction") + (("Numbering", "Acrostic verse") if n == 3 else ())
    for bs, end, nest, exp in itertools.product((False, True), repeat=4):
        w = []
        for m, r in T.rows.items():
            if r["level"] != "Internal" or r["occursIn"] not in places: continue
            for f in [m] + (T.numbers(m) if exp else []):
                for plus in ("", "+") if nest else ("",):
                    for star in ("", "*") if end else ("",): w.append(("\\" if bs else "") + plus + f + star)
        with ctx.case((n, "character", bs, end, nest, exp)):
            g = M.getCharacterMarkersList(includeBackslash=bs, includeEndMarkers=end, includeNestedMarkers=nest, expandNumberableMarkers=exp)
            extra, missing = sorted(set(g) - set(w)), sorted(set(w) - set(g))
            ctx.expect(not extra and not missing and len(g) == len(set(g)), (n, "character", bs, end, nest, exp), lambda: f"unexpected {extra}, missing {missing}")
            ctx.count("validations_ok")
        ctx.state((n, bs, end, nest, exp))
    sets = {s: M.getTypicalNoteSets(s) for s in ("fn", "xr", "All")}

    ctx.expect(list(sets["All"]) == list(sets["fn"]) + list(sets["xr"]), (n, "sets"), lambda: "all note sets are those of footnotes and cross-references")

STATIC = {  # a marker which can have numbers is in all its forms or not at all; the level of each marker
    "USFM_ALL_TITLE_MARKERS": "Newline", "USFM_INTRODUCTION_PARAGRAPH_MARKERS": "Newline", "USFM_ALL_INTRODUCTION_MARKERS": "Newline", "USFM_ALL_SECTION_HEADING_MARKERS": "Newline", "USFM_BIBLE_PARAGRAPH_MARKERS": "Newline", "USFM_ALL_BIBLE_PARAGRAPH_MARKERS": "Newline"}
def static(ctx, n):
    T, mod = TABLES[n], module(n)
    for name, level in STATIC.items():
        ms = getattr(mod, name)
        bad = [m for m in ms if m != "iqt" if m not in T.form or T.rows[T.form[m]]["level"] != level]
        ctx.expect(not bad and len(set(ms)) == len(ms), (n, name), lambda: f"{name}: not {level} markers or listed twice: {bad}")
        part = sorted({T.form[m] for m in ms if m in T.form and T.numbers(T.form[m]) and T.form[m] not in ms})
        ctx.expect(not part, (n, name, "numbers"), lambda: f"{name} has numbered forms only of {part}")
        ctx.state((n, name)); ctx.count("validations_ok")
    ctx.expect(set(mod.USFM_ALL_BIBLE_PARAGRAPH_MARKERS) == set(mod.USFM_INTRODUCTION_PARAGRAPH_MARKERS) | set(mod.USFM_BIBLE_PARAGRAPH_MARKERS) and set(mod.USFM_ALL_TITLE_MARKERS) | set(mod.USFM_ALL_INTRODUCTION_MARKERS) | set(mod.OFTEN_IGNORED_USFM_HEADER_MARKERS) <= set(mod.USFM_PRECHAPTER_MARKERS), (n, "unions"), lambda: "combined marker sets")
    if n == 3:
        canon = T.select("numbered", lambda m, r: r["level"] == "Newline" and r["occursIn"] == "Canonical Text")
        ctx.equal(sorted(G.USFMParagraphMarkers), sorted(m for m in canon if m not in ("qa", "qc")), (n, "globals", "paragraph"), "paragraph markers used by the system")
        ch = MARKERS[3].getCharacterMarkersList
        ctx.equal(sorted(G.USFMCharacterMarkers), sorted(ch()), (n, "globals", "character"), "character markers used by the system")
        ctx.equal(sorted(G.USFMAllExpandedCharacterMarkers), sorted(ch(expandNumberableMarkers=True)), (n, "globals", "expanded"), "numbered character markers used by the system")
        rem = G.internal_SFMs_to_remove
        ctx.expect(sorted(rem) == sorted(ch(includeBackslash=True, includeNestedMarkers=True, includeEndMarkers=True)) and not any(b.startswith(a) and a != b for i, a in enumerate(rem) for b in rem[i:]), (n, "globals", "remove"), lambda: "markers to be removed: all, the longer ones first")

# ---- texts
RX = re.compile(r"\\(\+?)([^ *+\\][^ *\\]*|$)([ *]|$|(?=\\))")
def model_scan(T, text, initial):
    out, cx = [], []
    found = [m for m in RX.finditer(text)]
    for i, m in enumerate(found):
        plus, name, end = m.groups()
        name = name or "\\"
        kind = ("-" if end == "*" else "+") if plus else end
        if name == "\\": kind = "+" if plus else ""
        if name in T.form and T.rows[T.form[name]]["level"] == "Newline": cx = []
        elif kind in (" ", ""): cx = [name]
        elif kind == "+": cx = cx + [name]
        elif kind == "-": cx = cx[:-1]
        else: cx = []
        nxt = found[i + 1].start() if i + 1 < len(found) else len(text)
        out.append([name, m.start(), kind, m.group(0), cx, None, text[m.end():nxt]])
    for i, e in enumerate(out):
        if e[2] in (" ", "+") and e[4]:
            depth = len(e[4])
            for k in range(i + 1, len(out)):
                o = out[k]
                if len(o[4]) < depth or o[2] in (" ", "") or (o[2] == "+" and len(o[4]) <= depth): e[5] = k; break
    if initial and out and out[0][1] > 0:
        for e in out:
            if e[5] is not None: e[5] += 1
        out.insert(0, [None, 0, None, None, None, 1, text[:out[0][1]]])
    return [tuple(e) for e in out]

def well(pieces):
    """pieces whose markers do not run into the next one"""
    for a, b in zip(pieces, pieces[1:]):
        if a == "\\" and b[0] not in " *\\": return False
        if a == "\\+" and b[0] not in " *": return False
        if a in ("\\nd", "\\+wj") and b[0] not in " *": return False
    return True

def scan(ctx, n, k, first, second):
    T, M = TABLES[n], MARKERS[n]
    heads = [(PIECES[first],)] if second is None else [(PIECES[first], PIECES[second])]
    if second == 0: heads.append((PIECES[first],))
    for head in heads:
        tails = itertools.chain.from_iterable(itertools.product(PIECES, repeat=r) for r in (range(k - len(head) + 1) if second is None or len(head) == 2 else [0]))
        for tail in tails:
            ps = head + tail
            if not well(ps): continue
            text = "".join(ps)
            for initial in (False, True):
                key = (n, text, initial)
                with ctx.case(key):
                    got = [tuple(e) for e in M.getMarkerListFromText(text, includeInitialText=initial, verifyMarkers=initial)]
                    want = model_scan(T, text, initial)
                    if got != want: ctx.violation(key, f"markers of {text!r}: got {got}, should be {want}")
                    elif got and "".join((e[3] or "") + e[6] for e in got) != text[0 if initial else got[0][1]:]: ctx.violation(key, f"the pieces of {text!r} do not make up the text")
                    ctx.count("validations_ok")
                ctx.step()
            ctx.state((n, ps))
            if ctx.full: return

def model_remove(text, m, mode):
    op, cl = "\\" + m + " ", "\\" + m + "*"
    while True:
        i = text.find(op)
        if i < 0: return text
        j = i + len(op)
        if mode is True:
            e = text.find(cl, j)
            if e < 0: return text
            text = text[:i] + text[e + len(cl):]
            continue
        if mode is None: e = text.find("\\", j)
        else: e = next((x.start() for x in re.finditer(r"\\(?!\+)", text) if x.start() >= j), -1)
        if e < 0: return text[:i]
        text = text[:i] + text[e + (len(cl) if mode is None and text.startswith(cl, e) else 0):]

def remove(ctx, n, k, first):
    f = module(n).removeUSFMCharacterField
    for r in range(k):
        for tail in itertools.product(REMOVE, repeat=r):
            text = REMOVE[first] + "".join(tail)
            for m in ("x", "xt", "nd", "zz"):
                if n == 2 and m != "x" and r == k - 1: continue
                for mode in (True, False, None):
                    key = (n, text, m, mode)
                    with ctx.case(key, seconds=2):
                        got, want = f(m, text, mode), model_remove(text, m, mode)
                        if got != want: ctx.violation(key, f"removing \\{m} (closed={mode}) from {text!r} gave {got!r}, should be {want!r}")
                    ctx.step()
            ctx.state((n, text))
            if ctx.full: return
    ctx.count("validations_ok")

def replace(ctx, n, k, first):
    f = module(n).replaceUSFMCharacterFields
    for r in range(k):
        for tail in itertools.product(REPLACE, repeat=r):
            text = REPLACE[first] + "".join(tail)
            for i, reps in enumerate(LISTS):
                want = text
                for ms, o, c in reps:
                    for m in ms:
                        for plus in ("", "+"): want = want.replace(f"\\{plus}{m} ", o).replace(f"\\{plus}{m}*", c)
                with ctx.case((n, text, i), seconds=2):
                    got = f(reps, text)
                    if got != want: ctx.violation((n, text, i), f"replacing {reps} in {text!r} gave {got!r}, should be {want!r}")
                ctx.step()
            ctx.state((n, text))
            if ctx.full: return
    ctx.count("validations_ok")

def run(ctx, shard):
    kind, n = shard[:2]
    ctx.sample(shard)
    if kind == "table": {"query": queries, "lists": lists, "static": static}[shard[2]](ctx, n)
    elif kind == "scan": scan(ctx, n, *shard[2:])
    elif kind == "remove": remove(ctx, n, *shard[2:])
    else: replace(ctx, n, *shard[2:])
