"""R03: book code tables (every book x every table x every spelling; all reference orderings)."""
import itertools
import lib
from checks import tables

PROP = dict(
    title="Book codes convert to and from every other code system without loss",
    statement="For every book and every supported code system (OSIS, Sword, USFM, Unbound, Drupal, short, SBL and NET codes, and the numbering schemes), converting the book to the foreign code and back, "
              "in any letter case, gives that book (or the first book that shares the foreign code), reference numbers and book codes are bijective, and every value returned is the one in the published table. "
              "Sorting any list of book/chapter/verse references gives book, then chapter, then verse order, and sequencing or tidying any set of books neither loses nor duplicates one.",
    over=["inputs"],
    qtext="every book code of the table x every code system x letter cases; every pair and triple of boundary references; every subset/permutation of book groups up to size 4",
    why="The tests check a handful of well-known books; the tables hold about 300 books with shared and missing codes, and ordering errors only appear for high chapter and verse numbers.",
    files=["BibleOrgSys/Reference/BibleBooksCodes.py", "BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py", "BibleOrgSys/DataFiles/BibleBooksCodes.xml"],
    mechanism=[("BibleBooksCodes", "BibleOrgSys/Reference/BibleBooksCodes.py: pivoted dictionaries"), ("importDataToPython", "BibleOrgSys/Reference/Converters/BibleBooksCodesConverter.py")],
)
BOUNDS = "complete: all books of the table, all code systems, 4 letter cases; all pairs of 8 boundary references per book for neighbouring and equal books, all triples of a 24-reference core"
ASSUMPTIONS = ["BibleBooksCodes.xml is the specification of the codes"]

FIELDS = [  # (xml tag, getter, inverse, takes 'strict')
    ("shortAbbreviation", "getShortAbbreviation", "getBBBFromShortAbbreviation", True),
    ("SBLAbbreviation", "getSBLAbbreviation", None, False),
    ("OSISAbbreviation", "getOSISAbbreviation", "getBBBFromOSISAbbreviation", True),
    ("SwordAbbreviation", "getSwordAbbreviation", None, False),
    ("CCELNumber", "getCCELNumber", None, False),
    ("USFMAbbreviation", "getUSFMAbbreviation", "getBBBFromUSFMAbbreviation", True),
    ("USFMNumber", "getUSFMNumStr", None, False),
    ("USXNumber", "getUSXNumStr", None, False),
    ("UnboundCode", "getUnboundBibleCode", "getBBBFromUnboundBibleCode", False),
    ("BibleditNumber", "getBibleditNumStr", None, False),
    ("LogosNumber", "getLogosNumStr", None, False),
    ("NETBibleAbbreviation", "getNETBibleAbbreviation", None, False),
    ("DrupalBibleAbbreviation", "getDrupalBibleAbbreviation", "getBBBFromDrupalBibleCode", False),
    ("ByzantineAbbreviation", "getByzantineAbbreviation", None, False),
]

def setup(tier):
    global bbc, X, L
    G = lib.bos()
    bbc = G.loadedBibleBooksCodes
    X = tables.book_codes()
    L = list(X)

def shards(tier):
    return [("books", i) for i in range(8)] + [("order", i) for i in range(8)] + [("global",), ("seq",)]

def run(ctx, shard):
    if shard[0] == "books":
        for n, BBB in enumerate(L):
            if n % 8 == shard[1]: book(ctx, BBB)
    elif shard[0] == "order": order(ctx, shard[1])
    elif shard[0] == "seq": sequences(ctx)
    else: whole(ctx)

def cases(code): return {code, code.upper(), code.lower(), code.capitalize()}

def book(ctx, BBB):
    x = X[BBB]
    key = f"book {BBB}"
    with ctx.case(key):
        ctx.step(); ctx.state(BBB)
        ctx.expect(BBB in bbc and bbc.isValidBBB(BBB), key, "book not recognised")
        n = int(x["referenceNumber"])
        ctx.equal(bbc.getReferenceNumber(BBB), n, key, "reference number")
        ctx.equal(bbc.getBBBFromReferenceNumber(n), BBB, key, "book of reference number")
        ctx.equal(bbc.getBBBFromReferenceNumber(str(n)), BBB, key, "book of reference number string")
        ctx.equal(bbc.isOldTestament_NR(BBB), 1 <= n <= 39, key, "is OT")
        ctx.equal(bbc.isNewTestament_NR(BBB), 40 <= n <= 66, key, "is NT")
        eC = x.get("expectedChapters")
        ctx.equal(bbc.getExpectedChaptersList(BBB), eC.split(",") if eC else [], key, "expected chapters")
        nums = [int(c) for c in eC.split(",") if c.isdigit()] if eC else []
        ctx.equal(bbc.getMaxChapters(BBB), max(nums) if nums else -1, key, "max chapters")
        ctx.equal(bbc.isSingleChapterBook(BBB), eC == "1", key, "single chapter book")
        ctx.equal(BBB in bbc.getSingleChapterBooksList(), eC == "1", key, "single chapter list")
        ctx.equal(bbc.isChapterVerseBook(BBB), bool(eC), key, "chapter/verse book")
        ctx.equal(bbc.getTypicalSection(BBB), x.get("typicalSection"), key, "typical section")
        ctx.equal(bbc.getEnglishNameList_NR(BBB), [s.strip() for s in x["bookNameEnglishGuide"].split("/")], key, "English names")
        ctx.equal(bbc.getEnglishName_NR(BBB), x["bookNameEnglishGuide"].split("/")[0].strip(), key, "English name")
        alts = x.get("possibleAlternativeBooks")
        ctx.equal(bbc.getPossibleAlternativeBooksCodes(BBB), alts.split(",") if alts else None, key, "alternative books")
    for tag, getter, inverse, strict in FIELDS:
        fkey = f"{tag} {BBB}"
        want = x.get(tag) or None
        with ctx.case(fkey):
            ctx.step()
            got = getattr(bbc, getter)(BBB)
            if not ctx.equal(got or None, want, fkey, f"{getter}({BBB})"): continue
            if want is None or inverse is None: continue
            sharing = [b for b in L if (X[b].get(tag) or "").upper() == want.upper()]
            ctx.state(tag, tuple(sharing))
            for c in sorted(cases(want)):
                for kw in ({}, {"strict": True}, {"strict": False}) if strict else ({},):
                    back = getattr(bbc, inverse)(c, **kw)
                    ctx.step()
                    ctx.equal(back if isinstance(back, str) else back[0], sharing[0], fkey + f" {c} {kw}", f"{inverse}({c!r}, {kw})")
    # Text recognition: whatever it answers for a code must own that code
    for c in sorted(cases(BBB)):
        tkey = f"text {c}"
        with ctx.case(tkey):
            ctx.step(); ctx.equal(bbc.getBBBFromText(c), BBB, tkey, "getBBBFromText of a book code")
    for tag in ("shortAbbreviation", "SBLAbbreviation", "OSISAbbreviation", "SwordAbbreviation", "USFMAbbreviation", "NETBibleAbbreviation", "DrupalBibleAbbreviation"):
        code = X[BBB].get(tag)
        if not code: continue
        for c in sorted(cases(code)):
            tkey = f"text {c}"
            with ctx.case(tkey):
                ctx.step()
                got = bbc.getBBBFromText(c)
                owners = {b for b in L if b == c.upper() or any((X[b].get(t[0]) or "").upper() == c.upper() for t in FIELDS) or c.upper() in (X[b].get("possibleAlternativeAbbreviations") or "").split(",")
                          or (X[b].get("BibleWorksAbbreviation") or "").upper() == c.upper() or (X[b].get("LogosAbbreviation") or "").upper() == c.upper()}
                if c.upper() in X: owners = {c.upper()}
                # an abbreviation shared by several books is only guessed at
                if len(owners) == 1: ctx.equal(got, min(owners), tkey, "book recognised from an unambiguous abbreviation")
    for c in (X[BBB].get("possibleAlternativeAbbreviations") or "").split(","):
        if c and c not in X:
            with ctx.case(f"text {c}"):
                ctx.step(); ctx.equal(bbc.getBBBFromText(c), BBB, f"text {c}", "getBBBFromText of an alternative abbreviation")
    for title in (False, True):
        for four in (False, True):
            tkey = f"tidy {BBB} {title} {four}"
            with ctx.case(tkey):
                t = bbc.tidyBBB(BBB, titleCase=title, allowFourChars=four)
                ctx.step()
                plain = BBB[2] + BBB[:2] if BBB[2].isdigit() else BBB
                ok = len(t) in ((3, 4) if four else (3,)) and (t[0].isdigit() == BBB[2].isdigit())
                if not four or len(t) == 3: ok = ok and t.upper() == plain
                if title: ok = ok and all(ch.islower() or ch.isdigit() for ch in t[2 if t[0].isdigit() else 1:]) and t == (t[0] + t[1:2].upper() + t[2:].lower() if t[0].isdigit() else t[0] + t[1:].lower())
                else: ok = ok and t == t.upper()
                if len(t) == 4: 
                    rest = iter(t.upper())
                    ok = ok and all(ch in rest for ch in plain) and t.upper() == bbc.tidyBBB(BBB, titleCase=not title).upper()
                ctx.expect(ok, tkey, f"tidyBBB gave {t!r}")
                ctx.equal(bbc.tidyBBBs([BBB, "GEN"], title, four), [t, bbc.tidyBBB("GEN", title, four)], tkey, "tidyBBBs")

def whole(ctx):
    with ctx.case("whole"):
        ctx.step(8)
        ctx.equal(len(bbc), len(L), "whole", "number of books")
        ctx.equal(list(bbc), L, "whole", "iteration")
        ctx.equal(bbc.getAllReferenceAbbreviations(), L, "whole", "all codes")
        ctx.equal(sorted(bbc.getSequenceList()), sorted(L), "whole", "sequence list holds every book once")
        ctx.equal(bbc.getSequenceList(), [b for _, b in sorted((int(X[b]["sequenceNumber"]), b) for b in L)], "whole", "sequence order")
        tags = {}
        for b in L:
            u = X[b].get("USFMAbbreviation")
            if u: tags.setdefault(u, b)
        ctx.equal(sorted(bbc.getAllUSFMBooksCodes()), sorted(tags), "whole", "USFM codes")
        ctx.equal(sorted(bbc.getAllUSFMBooksCodes(toUpper=True)), sorted({t.upper() for t in tags}), "whole", "USFM codes, upper case")
        ctx.equal(sorted(bbc.getAllOSISBooksCodes()), sorted({X[b]["OSISAbbreviation"].upper() for b in L if X[b].get("OSISAbbreviation")}), "whole", "OSIS codes")
        for name, tag in (("getAllUSFMBooksCodeNumberTriples", "USFMNumber"), ("getAllUSXBooksCodeNumberTriples", "USXNumber"), ("getAllBibleditBooksCodeNumberTriples", "BibleditNumber")):
            first = {}
            for b in L:
                if X[b].get("USFMAbbreviation") and X[b].get(tag): first.setdefault(X[b]["USFMAbbreviation"], (X[b]["USFMAbbreviation"], X[b][tag], b))
            ctx.equal(sorted(getattr(bbc, name)()), sorted(first.values()), name, name)
        ctx.equal(bbc.getOSISSingleChapterBooksList(), [X[b]["OSISAbbreviation"] for b in L if X[b].get("expectedChapters") == "1" and X[b].get("OSISAbbreviation")], "whole", "OSIS single chapter books")
        ctx.state("whole")
    for bad in ("", "gen", "XYZ", "GENX", "G"):
        with ctx.case(f"bad {bad}"):
            ctx.equal(bad in bbc or bbc.isValidBBB(bad), False, f"bad {bad}", "unknown code accepted")
            for n in (0, -1, 1000):
                try: got = bbc.getBBBFromReferenceNumber(n)
                except (ValueError, KeyError): continue
                ctx.violation(f"bad number {n}", f"reference number {n} gave {got}")
    for c in range(1, 151):
        with ctx.case(f"psalm {c}"):
            for b in ("PSA", "PRO"):
                untitled = (1, 2, 10, 33, 43, 71, 91, 93, 94, 95, 96, 97, 99, 104, 105, 106, 107, 111, 112, 113, 114, 115, 116, 117, 118, 119, 135, 136, 137, 146, 147, 148, 149, 150)
                ctx.equal(bbc.hasPsalmTitle(b, str(c)), b == "PSA" and c not in untitled, f"psalm {c}", "has a title")

REFS = [(c, v) for c in ("0", "1", "2", "99", "100", "101", "119", "150") for v in ("0", "1", "10", "149", "150", "151", "176")]

def refkey(r): return (int(X[r[0]]["referenceNumber"]), int(r[1]), int(r[2].split("-")[0]), r[3] if len(r) > 3 else "")

def order(ctx, part):
    byNumber = sorted(L, key=lambda b: int(X[b]["referenceNumber"]))
    near = [(a, b) for i, a in enumerate(byNumber) for b in byNumber[i:i + 2]]
    for n, (a, b) in enumerate(near):
        if n % 8 != part: continue
        key = f"order {a} {b}"
        refs = [(a, c, v) for c, v in REFS] + ([(b, c, v) for c, v in REFS] if b != a else [])
        with ctx.case(key, refs):
            got = [bbc.BCVReferenceToInt(r) for r in refs]
            for (r1, i1), (r2, i2) in itertools.combinations(zip(refs, got), 2):
                ctx.step()
                k1, k2 = refkey(r1), refkey(r2)
                if (i1 < i2) != (k1 < k2) or (i1 == i2) != (k1 == k2):
                    ctx.violation(key, f"integers of {r1} and {r2} do not order like the references: {i1} {i2}", [r1, r2]); break
            ctx.state(a, b)
            for lst in (refs, refs[::-1], refs[1::2] + refs[::2]):
                srt = bbc.sortBCVReferences(lst)
                ctx.equal([refkey(r) for r in srt], sorted(refkey(r) for r in lst), key, "sorted order")
                ctx.equal(sorted(srt), sorted(lst), key, "sorting changed the references")
    # all permutations of small lists, including verse bridges, and repeated references
    core = [("GEN", "1", "1"), ("GEN", "1", "2-3"), ("PSA", "119", "176"), ("PSA", "120", "1"), ("PRO", "1", "1"), ("REV", "22", "21"), ("GEN", "1", "10"), ("GEN", "1", "2", "b")]
    if part < len(core):
        for tail in itertools.permutations([r for r in core if r != core[part]], 4):
            lst = (core[part],) + tail
            key = f"sort {lst}"
            with ctx.case(key, lst):
                ctx.step()
                ctx.equal(bbc.sortBCVReferences(list(lst)), sorted(lst, key=refkey), key, "sorted list", lst)

def sequences(ctx):
    pos = {b: i for i, b in enumerate(bbc.getSequenceList())}
    pool = ["GEN", "MAL", "MAT", "REV", "TOB", "FRT", "GLS", "PS2"]
    for n in range(0, 5):
        for perm in itertools.permutations(pool, n):
            key = f"seq {' '.join(perm)}"
            with ctx.case(key):
                ctx.step(); ctx.state(tuple(sorted(perm)))
                ctx.equal(bbc.getSequenceList(list(perm)), sorted(perm, key=pos.get), key, "sequence of a list")
                if n <= 3:
                    ctx.equal(bbc.getSequenceList([(b, 1) for b in perm]), [(b, 1) for b in sorted(perm, key=pos.get)], key, "sequence of tuples")
                    ctx.equal(bbc.getSequenceList(tuple(perm)), sorted(perm, key=pos.get), key, "sequence of a tuple")
    for b in L:
        with ctx.case(f"seq all-{b}"):
            rest = [x for x in L if x != b]
            ctx.equal(bbc.getSequenceList(rest), [x for x in bbc.getSequenceList() if x != b], f"seq all-{b}", "sequence without one book")
