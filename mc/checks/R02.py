"""R02: vernacular reference texts (all texts of a bounded grammar rendered in each system's punctuation, parsed by the real state machines)."""
import itertools
import lib
from checks import tables

PROP = dict(
    title="A printed Bible reference is parsed to exactly the verses it names",
    statement="A reference text written with the book names and punctuation of an organisational system (verses with suffixes, lists, ranges within a chapter, over chapters and over books, whole chapters, later chapters and books) is parsed to exactly the references it names, in order, and gives the same references in OSIS form, "
              "expands to exactly the verses of each range, and contains exactly those verses. Naming a verse, chapter or book that does not exist, or a range that runs backwards, makes the parse fail. "
              "The result never depends on what was parsed before. A note's anchor text matches its verse exactly if it names that verse.",
    over=["inputs", "histories"],
    qtext="all reference lists of up to three groups of up to three items of every shape over boundary chapters and verses, in every punctuation system; every book by every name; all ordered pairs of texts on one parser",
    why="The tests try a handful of texts; the parsers are hand-written state machines with nine states in which each separator must reset the right variables.",
    files=["BibleOrgSys/Reference/BibleReferences.py"],
    mechanism=[("BibleSingleReference(s) / BibleReferenceList / BibleAnchorReference .parseReferenceString", "BibleOrgSys/Reference/BibleReferences.py")],
)
BOUNDS = ("systems RSV, GENERIC-KJV-80-ENG, GENERIC-80-RUS, MBT and a loaded Bible's own names with the generic punctuation; groups: {verse list of 1-3 items (verse, range; suffixes), chapter, chapter range, range over chapters, range over books}; "
          "1-3 (thorough: 4) groups, each in the same or another book, over {GEN, PSA, CO1, JDE, ...}; every book of the system x {full name, abbreviation}; invalid: every group with one part out of the table; histories: all ordered pairs of 24 texts on one parser")
ASSUMPTIONS = ["a whole chapter or chapter range is only required to be accepted as the last group (elsewhere it may be refused, but never misread)", "book names that getBBBFromText itself does not resolve, or with punctuation in them, are not used; a range ends with a book name of one word, perhaps numbered"]

SYS = ["RSV", "GENERIC-KJV-80-ENG", "GENERIC-80-RUS", "MBT", "GENERIC-KJV-66"]

class Named:
    """A system without names and punctuation of its own, used with a Bible object (as a loaded Bible uses it)."""
    def __init__(self, s, names): self.s, self.names = s, names
    def getBookName(self, B): return self.names.getBookName(B)
    def getBookAbbreviation(self, B): return self.names.getBookAbbreviation(B)
    def getBBBFromText(self, t): return self.names.getBBBFromText(t)
    getAssumedBookName, guessXRefBBB = getBookName, getBBBFromText
    def getPunctuationDict(self): return P(self.s, self).punctuationDict
    def getBookOrderList(self): return self.s.getBookOrderList()
def P(s, obj): return L_(s, obj)
def parser(cls, n): return cls(bos[n].s, bos[n]) if isinstance(bos[n], Named) else cls(bos[n])
def setup(tier):
    global bos, L, S1, SN, A, X, G, sysX, L_
    lib.bos()
    from BibleOrgSys import BibleOrgSysGlobals as G
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    from BibleOrgSys.Reference.BibleReferences import BibleReferenceList as L, BibleSingleReference as S1, BibleSingleReferences as SN, BibleAnchorReference as A
    X = tables.versifications()
    org = {n: BibleOrganisationalSystem(n) for n in SYS}
    L_ = L
    sysX = {n: {B: [v for _c, v in ch] for B, (_k, ch, om) in X[org[n].getOrganisationalSystemValue("versificationSystem")].items() if not om and [c for c, _v in ch] == [str(j + 1) for j in range(len(ch))]} for n in SYS}
    bos = {n: Named(o, org["RSV"]) if n == "GENERIC-KJV-66" else o for n, o in org.items()}

def shards(tier):
    return ([("books", n) for n in SYS] + [("one", n, k) for n in SYS for k in range(6 if tier == "quick" else len(BOOKS))] + [("alt", n) for n in SYS] + [("two", n, i) for n in SYS for i in range(12)] + [("bad", n) for n in SYS] + [("pairs", n) for n in SYS]
            + [("single", n) for n in SYS] + [("singles", n, i) for n in SYS for i in range(4)] + [("three", n, i) for n in (SYS[::3] if tier == "quick" else SYS) for i in range(12)] + [("anchor",)])

def run(ctx, shard): globals()["do_" + shard[0]](ctx, *shard[1:])

# ---- the model: a group is (BBB, [items]); an item is ((C,V,S),) or ((C,V,S),(BBB2,C2,V2,S2)); V '' = whole chapter
def single(B, n): return len(sysX[n][B]) == 1

class Writer:
    """Writes groups in the punctuation of a system."""
    def __init__(self, n, form="abbr", which=0):
        self.n, self.s, self.form = n, bos[n], form
        self.p = {k: v[which] if v and isinstance(v, str) and ("Separator" in k or "Bridge" in k) else v for k, v in bos[n].getPunctuationDict().items()}
    def book(self, B):
        if self.form == "name": return self.s.getBookName(B) + self.p["bookChapterSeparator"]
        return self.s.getBookAbbreviation(B) + self.p["punctuationAfterBookAbbreviation"] + self.p["bookChapterSeparator"]
    def cv(self, C, V, s, B, short=False):
        if V == "": return C
        if short and single(B, self.n): return V + s
        return C + self.p["chapterVerseSeparator"] + V + s
    def group(self, g, prev, short=False):
        B, items = g
        out = "" if prev == B else self.book(B)
        C = None
        for j, it in enumerate(items):
            c, v, s = it[0]
            if j: out += self.p["verseSeparator"]
            out += v + s if c == C else self.cv(c, v, s, B, short)
            C = c
            if len(it) == 2:
                b2, c2, v2, s2 = it[1]
                if b2 != B: out += self.p["bookBridgeCharacter"] + self.book(b2) + self.cv(c2, v2, s2, b2)
                elif c2 != c and v2: out += self.p["chapterBridgeCharacter"] + self.cv(c2, v2, s2, B)
                elif v2 == "": out += self.p["chapterBridgeCharacter"] + c2
                else: out += self.p["verseBridgeCharacter"] + v2 + s2
                C = c2
        return out
    def text(self, groups, short=False):
        out, prev = "", None
        for g in groups:
            if prev is not None: out += self.p["chapterSeparator" if g[0] == prev else "bookSeparator"] + " "
            out += self.group(g, prev, short)
            prev = g[1][-1][1][0] if len(g[1][-1]) == 2 else g[0]
        return out

def want(groups):
    r = []
    for B, items in groups:
        for it in items:
            a = (B, *it[0])
            r.append(a if len(it) == 1 else (a, it[1]))
    return r

def verses(n, B, C): return int(sysX[n][B][int(C) - 1])

def order(n): return list(bos[n].getBookOrderList())

def expand(n, refs):
    out = []
    for r in refs:
        if len(r) == 4: out.append(r); continue
        (B, C, V, s), (B2, C2, V2, s2) = r
        if V == "": out += [(B, str(c), str(v), "") for c in range(int(C), int(C2) + 1) for v in range(1, verses(n, B, str(c)) + 1)]; continue
        bl = order(n); books = bl[bl.index(B):bl.index(B2) + 1]
        for b in books:
            for c in range(int(C) if b == B else 1, (int(C2) if b == B2 else len(sysX[n][b])) + 1):
                for v in range(int(V) if (b, c) == (B, int(C)) else 1, (int(V2) if (b, c) == (B2, int(C2)) else verses(n, b, str(c))) + 1):
                    out.append((b, str(c), str(v), s if (b, c, v) == (B, int(C), int(V)) else s2 if (b, c, v) == (B2, int(C2), int(V2)) else ""))
    return out

def osis(refs):
    bk = lambda B: G.loadedBibleBooksCodes.getOSISAbbreviation(B)
    one = lambda r: f"{bk(r[0])}.{r[1]}.{r[2]}" if r[2] else f"{bk(r[0])}.{r[1]}"
    return "; ".join(one(r) if len(r) == 4 else one(r[0]) + "-" + one(r[1]) for r in refs)

def check(ctx, p, n, text, groups, must=True, deep=False):
    w = want(groups)
    with ctx.case(f"{n}: {text}"):
        ctx.step(len(w)); ctx.state(n, text)
        ok, warn, got = p.parseReferenceString(text)
        if not ok:
            if must: ctx.violation(f"{n}: {text}", f"refused ({got})")
            return
        if not ctx.equal(got, w, f"{n}: {text}", "references"): return
        ctx.equal(p.getReferenceList(), w, f"{n}: {text}", "reference list")
        ctx.equal(p.getOSISRefList(), osis(w), f"{n}: {text}", "OSIS form")
        ctx.equal(p.parseToOSIS(text), osis(w), f"{n}: {text}", "parse to OSIS")
        if deep:
            e = expand(n, w)
            ctx.equal(p.getReferenceList(expanded=True), e, f"{n}: {text}", "expanded list")
            ctx.equal(p.getFirstReference(text), w[0] if len(w[0]) == 4 else w[0][0], f"{n}: {text}", "first reference")
            es = {x[:3] for x in e}
            B = w[0][0] if len(w[0]) == 4 else w[0][0][0]
            if all(x[2] for x in e):
                for b, c in {x[:2] for x in e} | {(B, "1"), ("REV", "22")}:
                    for v in range(1, verses(n, b, c) + 1):
                        ctx.equal(p.containsReference(b, c, str(v)), (b, c, str(v)) in es, f"{n}: {text} {b} {c}:{v}", "contains the verse")

def prefixed(n, B, name):
    """A name with another punctuation, or whose beginning is the name of another book."""
    return not name.replace(" ", "").isalnum() or any(name[k] == " " and not name[k + 1].isalpha() and bos[n].getBBBFromText(name[:k]) for k in range(1, len(name)))

def plain(n, B, form): return not prefixed(n, B, (bos[n].getBookName if form == "name" else bos[n].getBookAbbreviation)(B))

def usable(n, B):
    s = bos[n]
    try: return all(s.getBBBFromText(x) == B for x in (s.getBookName(B), s.getBookAbbreviation(B)))
    except KeyError: return False # a book which the names system does not know

def do_books(ctx, n):
    p = parser(L, n)
    for B in order(n):
        if B not in sysX[n]: continue
        s = bos[n]
        try: names = (("name", s.getBookName(B)), ("abbr", s.getBookAbbreviation(B)))
        except KeyError: continue # a book which the names system does not know
        for form, name in names:
            if s.getBBBFromText(name) != B or not name.replace(" ", "").isalnum(): continue
            if prefixed(n, B, name): continue
            w = Writer(n, form)
            last = str(len(sysX[n][B]))
            for items in ([(("1", "1", ""),)], [((last, str(verses(n, B, last)), ""),)], [(("1", "2", ""), (B, "1", "4", ""))] if verses(n, B, "1") > 4 else [(("1", "1", ""),)]):
                check(ctx, p, n, w.text([(B, items)]), [(B, items)])
                if single(B, n): check(ctx, p, n, w.text([(B, items)], short=True), [(B, items)])

CV = [("1", "1"), ("1", "31"), ("3", "16"), ("12", "9"), ("50", "1")]
def items1(B, n):
    """All single items of a book."""
    if single(B, n):
        for s in ("", "b"): yield ((("1", "3", s)),)
        for s, t in (("", ""), ("a", "b")): yield (("1", "3", s), (B, "1", "7", t))
        return
    hi = len(sysX[n][B])
    for c, v in CV:
        if int(c) > hi or int(v) > verses(n, B, c): continue
        for s in ("", "a", "b"): yield ((c, v, s),)
        v2 = str(int(v) + 1)
        if int(v2) <= verses(n, B, c):
            for s, t in (("", ""), ("b", ""), ("", "a"), ("b", "a")): yield ((c, v, s), (B, c, v2, t))
        last = str(verses(n, B, c))
        if last != v: yield ((c, v, ""), (B, c, last, ""))
    for (c, v), (c2, v2) in ((("1", "2"), ("2", "1")), (("1", "30"), ("3", "16")), (("2", "1"), ("10", "2"))):
        if int(c2) <= hi and int(v) <= verses(n, B, c) and int(v2) <= verses(n, B, c2):
            for s, t in (("", ""), ("a", "b")): yield ((c, v, s), (B, c2, v2, t))

def lists(B, n, k):
    """All verse lists of k items in one chapter."""
    c = "1" if single(B, n) else str(max((verses(n, B, str(c)) > 20, -c) for c in range(1, len(sysX[n][B]) + 1))[1] * -1)
    vs = [2, 4, 6, 9, 11, 13, 15, 17]
    if verses(n, B, c) < vs[2 * k - 1]: return
    for shape in itertools.product("vr", repeat=k):
        m = sum(2 if x == "r" else 1 for x in shape)
        for sf in itertools.product(("", "a"), repeat=m) if m <= 4 else [("",) * m, ("a",) + ("",) * (m - 1), ("",) * (m - 1) + ("b",)]:
            it, out = iter(zip(vs, sf)), []
            for x in shape:
                v, s = next(it)
                if x == "v": out.append(((c, str(v), s),))
                else: w, t = next(it); out.append(((c, str(v), s), (B, c, str(w), t)))
            yield out

BOOKS = ["GEN", "PSA", "CO1", "JDE", "MAT", "REV", "EXO", "ISA", "OBA", "ACT", "PHM", "TI2", "SA2", "PE1", "JN2", "JN3", "CH1", "JOB", "SNG", "LAM"]
def do_one(ctx, n, k):
    B = BOOKS[k]
    if not usable(n, B): return
    for form in ("abbr", "name"):
        if not plain(n, B, form): continue
        p, w = parser(L, n), Writer(n, form)
        for it in items1(B, n): check(ctx, p, n, w.text([(B, [it])]), [(B, [it])], deep=True)
        for m in (1, 2, 3) if ctx.quick else (1, 2, 3, 4):
            for items in lists(B, n, m):
                check(ctx, p, n, w.text([(B, items)]), [(B, items)], deep=True)
                if single(B, n): check(ctx, p, n, w.text([(B, items)], short=True), [(B, items)])
        if not single(B, n):
            for c in ("1", "3", "16"):
                if len(sysX[n][B]) < int(c) + 2: continue
                check(ctx, p, n, w.text([(B, [((c, "", ""),)])]), [(B, [((c, "", ""),)])])
                if c != "16":
                    it = ((c, "", ""), (B, str(int(c) + 2), "", ""))
                    check(ctx, p, n, w.text([(B, [it])]), [(B, [it])], deep=True)
        # a range over books
        bl = order(n)
        for j in (1, 2):
            if bl.index(B) + j >= len(bl): continue
            B2 = bl[bl.index(B) + j]
            if B2 not in sysX[n] or not usable(n, B2) or single(B2, n) or single(B, n) or not plain(n, B2, form): continue
            if form == "name" and " " in bos[n].getBookName(B2).lstrip("123 "): continue # only numbered names can end a range
            for (c, v), (c2, v2) in itertools.product((("1", "2"), (str(len(sysX[n][B])), "1")), (("1", "3"), ("2", "1"))):
                it = ((c, v, ""), (B2, c2, v2, ""))
                check(ctx, p, n, w.text([(B, [it])]), [(B, [it])], deep=j == 1)

def do_alt(ctx, n):
    """The other punctuation characters of the system, the last suffix, a separator at the end."""
    p, w, p0, w0 = parser(L, n), Writer(n, which=-1), parser(SN, n), Writer(n)
    z = w.p["allowedVerseSuffixes"][-1]
    for B in ("GEN", "CO1", "JDE"):
        if not usable(n, B): continue
        c = "1" if single(B, n) else "3"
        for items in [[it] for it in items1(B, n)] + list(lists(B, n, 2)):
            check(ctx, p, n, w.text([(B, items)]), [(B, items)])
        for items in ([((c, "3", z),)], [((c, "3", z), (B, c, "5", ""))], [((c, "3", ""), (B, c, "5", z))], [((c, "3", z), (B, c, "5", z)), ((c, "7", z),)]):
            check(ctx, p, n, w.text([(B, items)]), [(B, items)])
            for w1 in (w, w0):
                for end in (";", "; ", ",", "-", " ", "; Xyz", "; 3x", ":", "."):
                    check(ctx, p, n, w1.text([(B, items)]) + end, [(B, items)], must=False)
                    if len(items) == 1 and len(items[0]) == 1:
                        t = w1.text([(B, items)]) + end
                        with ctx.case(f"{n} single references: {t}"):
                            ctx.step(); r = p0.parseReferenceString(t)
                            ctx.expect(not r[0] or r[2] == want([(B, items)]), f"{n} single references: {t}", f"misread as {r[2]}")

POOL = ("GEN", "CO1", "JDE", "REV")
def pool(n):
    """Groups for lists of groups."""
    out = []
    for B in POOL:
        if not usable(n, B): continue
        if single(B, n):
            out += [(B, [(("1", "3", ""),)]), (B, [(("1", "5", "b"),)]), (B, [(("1", "3", ""), (B, "1", "7", ""))])]
            continue
        out += [(B, [(("3", "5", ""),)]), (B, [(("12", "4", "b"),)]), (B, [(("2", "2", ""),), (("2", "4", "a"),)]), (B, [(("3", "2", ""), (B, "3", "6", ""))]),
                (B, [(("4", "1", ""),), (("4", "3", "a"), (B, "4", "5", "b"))]), (B, [(("3", "2", "b"), (B, "4", "1", "a"))])]
        if B == "GEN": out += [(B, [(("12", "1", ""), ("EXO", "2", "3", ""))])] if usable(n, "EXO") else []
        out += [(B, [(("7", "", ""),)]), (B, [(("5", "", ""), (B, "8", "", ""))])]
    return out

def chapteronly(g): return g[1][0][0][1] == ""

def do_two(ctx, n, i):
    p, w = parser(L, n), Writer(n)
    for a, b in list(itertools.product(pool(n), repeat=2))[i::12]:
        if chapteronly(b) and a[0] == b[0]: must = False # "5:3; 7": a chapter
        else: must = not chapteronly(a)
        if len(a[1][-1]) == 2 and a[1][-1][1][0] != a[0] and b[0] == "GEN": continue
        if len(a[1][-1]) == 2 and a[1][-1][1][0] == b[0] and a[0] != b[0]: continue
        must = must and not (chapteronly(b) and len(b[1][0]) == 2)
        for short in (False, True):
            if short and not (single(a[0], n) or single(b[0], n)): continue
            if short and a[0] == b[0]: continue
            check(ctx, p, n, w.text([a, b], short), [a, b], must, deep=not chapteronly(a) and not chapteronly(b) and not short)

def do_three(ctx, n, i):
    p, w = parser(L, n), Writer(n)
    gs = [g for g in pool(n) if not chapteronly(g) and not (len(g[1][-1]) == 2 and g[1][-1][1][0] != g[0])]
    for groups in list(itertools.product(gs, repeat=3) if ctx.quick else itertools.chain(itertools.product(gs, repeat=3), itertools.product(gs[::2], repeat=4)))[i::12]:
        check(ctx, p, n, w.text(groups), list(groups))
        if ctx.full: return

def do_pairs(ctx, n):
    """What was parsed before (valid or not) leaves no trace."""
    w = Writer(n)
    gs = [g for g in pool(n) if not chapteronly(g)]
    texts = [w.text([g]) for g in gs][:16] + [w.text([a, b]) for a, b in zip(gs, gs[3:])][:4]
    texts += [t[:-1] + "," for t in texts[:2]] + [texts[0].replace("3", "93"), "Xyz 3:4", "Gen"]
    fresh = {}
    for cls in (L, SN, S1):
        for t in texts:
            with ctx.case(f"{n} {cls.__name__}: {t!r}"): fresh[cls, t] = repr(parser(cls, n).parseReferenceString(t))
        for a, b in itertools.product(texts, repeat=2):
            key = f"{n} {cls.__name__}: {a!r} then {b!r}"
            with ctx.case(key):
                ctx.step(2); ctx.state(n, a, b)
                p = parser(cls, n); p.parseReferenceString(a)
                ctx.equal(repr(p.parseReferenceString(b)), fresh[cls, b], key, "result after another text")
    # an OSIS text in between changes nothing either
    p = parser(L, n)
    for t in texts:
        with ctx.case(f"{n} OSIS then {t!r}"):
            ctx.step(2)
            ctx.equal(p.parseOSISReferenceString("Gen.3.5")[0::2], (True, [("GEN", "3", "5", "")]), t, "OSIS reference")
            ctx.equal(repr(p.parseReferenceString(t)), fresh[L, t], t, "result after an OSIS text")

def do_bad(ctx, n):
    p, w, s = parser(L, n), Writer(n), bos[n]
    for B in ("GEN", "PSA", "CO1", "JDE", "REV"):
        if not usable(n, B): continue
        hi = len(sysX[n][B]); last = str(verses(n, B, "1"))
        over = str(verses(n, B, "1") + 1)
        bad = [[(("1", over, ""),)], [(("1", "2", ""),), (("1", over, ""),)], [(("1", "2", ""), (B, "1", over, ""))], [(("1", "199", ""),)]]
        if hi > 1: bad += [[((str(hi + 1), "1", ""),)], [((str(hi + 1), "", ""),)], [(("1", "2", ""), (B, str(hi + 1), "1", ""))], [(("2", "2", ""), (B, "1", "3", ""))]]
        bad += [[(("1", "5", ""), (B, "1", "3", ""))]]
        good = (B, [(("1", "2", ""),)])
        for items in bad:
            for groups in ([(B, items)], [good, (B, items)], [(B, items), good]):
                if any(chapteronly(g) for g in groups[:-1]): continue
                t = w.text(groups)
                with ctx.case(f"{n}: {t}"):
                    ctx.step(); ctx.state(n, t)
                    ctx.expect(not p.parseReferenceString(t)[0], f"{n}: {t}", "a reference that does not exist is accepted")
                    ctx.equal(p.parseToOSIS(t), None, f"{n}: {t}", "OSIS form of a wrong reference")
    for t in ("Xyz 3:4", "Qqq. 1:1", "3:4", "Gen", "?"):
        with ctx.case(f"{n}: {t}"):
            ctx.step(); ctx.state(n, t)
            ctx.expect(not p.parseReferenceString(t)[0], f"{n}: {t}", "accepted without a book or chapter")

def do_single(ctx, n):
    for form in ("abbr", "name"):
        p, w = parser(S1, n), Writer(n, form)
        for B in ("GEN", "PSA", "CO1", "JDE", "MAT", "REV"):
            if not usable(n, B): continue
            if not plain(n, B, form): continue
            for c, v in CV:
                if int(c) > len(sysX[n][B]) or int(v) > verses(n, B, c): continue
                for s in ("", "a", "b"):
                    for short in (False, True) if single(B, n) else (False,):
                        g = [(B, [((c, v, s),)])]; t = w.text(g, short)
                        with ctx.case(f"{n}: {t}"):
                            ctx.step(); ctx.state(n, t)
                            r = p.parseReferenceString(t)
                            ctx.equal((r[0], *r[2:]), (True, B, c, v, s), f"{n}: {t}", "single reference")
            for c, v in (("1", str(verses(n, B, "1") + 1)), (str(len(sysX[n][B]) + 1), "1")):
                t = w.text([(B, [((c, v, ""),)])])
                with ctx.case(f"{n}: {t}"):
                    ctx.step(); ctx.expect(not p.parseReferenceString(t)[0], f"{n}: {t}", "a reference that does not exist is accepted")

def do_singles(ctx, n, i):
    p, w = parser(SN, n), Writer(n)
    gs = [g for g in pool(n) if not chapteronly(g) and all(len(x) == 1 for x in g[1])]
    gs += [(g[0], [((g[1][0][0][0], str(v), s),) for v, s in vs]) for g in gs[::3] for vs in ([(1, ""), (3, "b"), (5, "")], [(1, "a"), (2, ""), (5, "b")])]
    for k in (1, 2, 3):
        for groups in list(itertools.product(gs, repeat=k))[i::4]:
            t = w.text(groups)
            with ctx.case(f"{n}: {t}"):
                ctx.step(k); ctx.state(n, "SN", t)
                r = p.parseReferenceString(t)
                ctx.equal((r[0], r[2]), (True, want(groups)), f"{n}: {t}", "single references")
            if ctx.full: return

def do_anchor(ctx):
    for B, C, V in (("GEN", "1", "3"), ("PSA", "119", "13"), ("CO1", "13", "1"), ("JDE", "1", "3"), ("MAT", "5", "3-5"), ("MAT", "5", "3,4")):
        a = A(B, C, V)
        mine = set(V.replace("-", ",").split(","))
        for c in ("1", "3", "5", "11", "13", "119"):
            for vs in [("1",), ("3",), ("13",), ("5",), ("1", "3"), ("2", "4"), ("3", "13"), ("1", "3", "5"), ("31",), ("30", "33")]:
                for sep in ":.":
                    for s in ("", "a", "b"):
                        for tail in ("", ":", " a"):
                            t = c + sep + ",".join(v + s for v in vs) + tail
                            key = f"{B} {C}:{V} and {t!r}"
                            with ctx.case(key):
                                ctx.step(); ctx.state(B, C, V, t)
                                ctx.equal(a.matchesAnchorString(t), c == C and bool(mine & set(vs)), key, "match")
        if B == "JDE":
            for vs in [("1",), ("3",), ("13",), ("1", "3")]:
                for tail in ("", ":", " a"):
                    t = ",".join(vs) + tail; key = f"{B} {C}:{V} and {t!r}"
                    with ctx.case(key):
                        ctx.step(); ctx.equal(a.matchesAnchorString(t), "3" in vs, key, "match")
