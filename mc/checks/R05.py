"""R05: versification arithmetic (every system, book, chapter; all boundary ranges; all system histories)."""
import itertools
import lib
from checks import tables

PROP = dict(
    title="Versification counts, validity, ranges and absolute verse numbers agree",
    statement="In every versification system, chapter and verse counts, totals, reference validity and omitted verses all describe the published table. "
              "A verse range expands to exactly the verses from its first to its last in order, across chapters and books. "
              "In every organisational system, each verse has one absolute number, absolute numbers are consecutive through its books and convert back to the same verse, whichever other systems were used before.",
    over=["inputs", "configurations", "histories"],
    qtext="every system, book and chapter; ranges between every pair of boundary verses in a book and between neighbouring books; every ordered pair of organisational systems used one after the other",
    why="The tests query a few KJV chapters; cross-book ranges, omitted verses and the interaction of two systems in one program are never exercised.",
    files=["BibleOrgSys/Reference/BibleVersificationSystems.py", "BibleOrgSys/Reference/BibleOrganisationalSystems.py"],
    mechanism=[("expandCVRange / isValidBCVRef", "BibleOrgSys/Reference/BibleVersificationSystems.py"), ("absolute verse table", "BibleOrgSys/Reference/BibleOrganisationalSystems.py")],
)
BOUNDS = "complete over systems x books x chapters; ranges: all pairs of {1,2,last-1,last} of chapters {1,2,middle,last-1,last} in each book and all start/end boundaries over 1-3 neighbouring books; absolute numbers: all verses of each system, all ordered pairs of systems"
ASSUMPTIONS = ["the XML versification files are the specification of the counts"]

def setup(tier):
    global X, V, names, boss, bosnames, bvss
    lib.bos()
    from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystems, BibleVersificationSystem
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystems
    X = tables.versifications()
    bvss = BibleVersificationSystems().loadData()
    V = BibleVersificationSystem
    names = list(X)
    boss = BibleOrganisationalSystems().loadData()
    bosnames = sorted(boss.getAvailableOrganisationalSystemNames())

def shards(tier):
    q = tier == "quick"
    big = ["KJV", "Vulgate", "NRSV", "Original", "Septuagint", "BibMaxRef", "Syriac"]
    return ([("sys", n) for n in names] + [("range", n) for n in (names if not q else [n for n in names if n in big])]
            + [("books", n, o) for n in (names if not q else ["KJV", "Vulgate", "NRSV"]) for o in ("EuropeanBible", "KJVwithApocrypha", "VulgateBible")]
            + [("abs", i) for i in range(len(bosnames))] + [("names",)])

def run(ctx, shard):
    if shard[0] == "sys": system(ctx, shard[1])
    elif shard[0] == "range": ranges(ctx, shard[1])
    elif shard[0] == "books": books(ctx, shard[1], shard[2])
    elif shard[0] == "abs": absolute(ctx, bosnames[shard[1]])
    else:
        with ctx.case("names"):
            ctx.equal(sorted(bvss.getAvailableVersificationSystemNames()), sorted(names), "names", "system names"); ctx.state("names")

def system(ctx, name):
    s = V(name)
    from BibleOrgSys import BibleOrgSysGlobals as G
    with ctx.case(name):
        ctx.equal(list(s), list(X[name]), name, "books"); ctx.equal(len(s), len(X[name]), name, "number of books")
        ctx.equal(s.numAvailableBooks(), len(X[name]), name, "number of books")
        ctx.equal(s.getVersificationSystemName(), name, name, "name")
    for BBB in G.loadedBibleBooksCodes:
        key = f"{name} {BBB}"
        with ctx.case(key):
            if BBB not in X[name]:
                ctx.step()
                ctx.equal((BBB in s, s.getNumChapters(BBB), s.isSingleChapterBook(BBB), s.getNumVerses(BBB, "1")), (False, None, None, 0), key, "absent book")
                ctx.equal(s.isValidBCVRef((BBB, "1", "1", ""), "x"), False, key, "absent book valid")
                continue
            nC, chapters, omitted = X[name][BBB]
            ctx.state(name, BBB)
            ctx.equal(BBB in s, True, key, "contains")
            ctx.equal(s.getNumChapters(BBB), nC, key, "chapters")
            ctx.equal(s.isSingleChapterBook(BBB), nC == 1, key, "single chapter")
            ctx.equal(s.getNumVersesList(BBB), [v for _, v in chapters], key, "verse list")
            ctx.equal(s.getTotalNumVerses(BBB), sum(v for _, v in chapters), key, "total verses")
            ctx.equal(list(s.getOmittedVerseList(BBB) or []), omitted, key, "omitted verses")
            if omitted: ctx.equal(s.getOmittedVerseList(BBB, fullRefs=True), [(BBB, c, v) for c, v in omitted], key, "omitted references")
            for c, n in chapters:
                ctx.equal(s.getNumVerses(BBB, c), n, key, f"verses of {c}"); ctx.equal(s.getNumVerses(BBB, int(c)), n, key, f"verses of int {c}")
                om = {v for cc, v in omitted if cc == c}
                for v in range(0, n + 3):
                    ctx.step()
                    ref = (BBB, c, str(v), "")
                    want = 0 < v <= n and str(v) not in om
                    if s.isValidBCVRef(ref, "x") != want: ctx.violation(f"{key} {c}:{v}", f"isValidBCVRef is {not want}"); break
                    if s.isOmittedVerse(ref) != (str(v) in om): ctx.violation(f"{key} {c}:{v}", "isOmittedVerse"); break
                    if s.isValidBCVRef((BBB, c, str(v), "a"), None, extended=True) != (want or v == 0): ctx.violation(f"{key} {c}:{v}", "isValidBCVRef extended"); break
                ctx.equal(s.isOmittedVerse((BBB, int(c), 1, "")), "1" in om, key, "isOmittedVerse of ints")
                ctx.equal(s.isValidBCVRef((BBB, c, "", ""), "x"), True, key, "whole chapter")
            ctx.equal(s.isValidBCVRef((BBB, str(int(chapters[-1][0]) + 1), "1", ""), "x"), False, key, "chapter beyond the end")
            ctx.equal(s.isValidBCVRef((BBB, "-1", "5", ""), "x", extended=True), True, key, "introduction line")

def flat(name, BBB): return [(BBB, c, str(v)) for c, n in X[name][BBB][1] for v in range(1, n + 1)]

def boundary(name, BBB):
    chapters = X[name][BBB][1]
    pick = sorted({i for i in (0, 1, len(chapters) // 2, len(chapters) - 2, len(chapters) - 1) if 0 <= i < len(chapters)})
    res = []
    for i in pick:
        c, n = chapters[i]
        res += [(c, str(v)) for v in sorted({1, 2, n - 1, n} & set(range(1, n + 1)))]
    return res

def expand(all_, first, last, s1, s2):
    i, j = all_.index(first), all_.index(last)
    return [r + (s1 if k == 0 else s2 if k == j - i else "",) for k, r in enumerate(all_[i:j + 1])]

def ok(s, ref): return s.isValidBCVRef(ref, "x")

def ranges(ctx, name):
    s = V(name)
    for BBB in X[name]:
        all_ = flat(name, BBB)
        if [c for c, _ in X[name][BBB][1]] != [str(i + 1) for i in range(len(X[name][BBB][1]))]: continue     # chapters not numbered 1..n
        if not all_: continue
        b = boundary(name, BBB)
        for (c1, v1), (c2, v2) in itertools.product(b, b):
            for s1, s2 in (("", ""), ("b", "a")) if (c1, v1) == b[0] or (c2, v2) == b[-1] else (("", ""),):
                key = f"{name} {BBB} {c1}:{v1}{s1}-{c2}:{v2}{s2}"
                r1, r2 = (BBB, c1, v1, s1), (BBB, c2, v2, s2)
                with ctx.case(key):
                    ctx.step(); ctx.state(name, BBB, c1, v1, c2, v2)
                    got = s.expandCVRange(r1, r2, "x")
                    legal = ok(s, r1) and ok(s, r2) and (int(c1), int(v1)) < (int(c2), int(v2))
                    ctx.equal(got, expand(all_, r1[:3], r2[:3], s1, s2) if legal else None, key, "expanded range")
        # whole chapters
        chs = [c for c, _ in X[name][BBB][1]]
        for c1, c2 in {(chs[0], chs[-1]), (chs[0], chs[0]), (chs[-1], chs[-1]), (chs[0], chs[min(1, len(chs) - 1)])}:
            key = f"{name} {BBB} {c1}-{c2}"
            n2 = dict(X[name][BBB][1])[c2]
            if n2 < 1 or c1 == c2 and n2 < 2 or dict(X[name][BBB][1])[c1] < 1: continue
            with ctx.case(key):
                ctx.step()
                ctx.equal(s.expandCVRange((BBB, c1, "", ""), (BBB, c2, "", ""), "x"), expand(all_, (BBB, c1, "1"), (BBB, c2, str(n2)), "", ""), key, "expanded chapters")

def books(ctx, name, orderName):
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
    s, o = V(name), BibleBookOrderSystem(orderName)
    order = list(o.getBookOrderList())
    contiguous = {B for B in X[name] if [c for c, _ in X[name][B][1]] == [str(i + 1) for i in range(len(X[name][B][1]))] and all(n > 0 for _, n in X[name][B][1])}
    for i in range(len(order)):
        for span in (1, 2):
            run_ = order[i:i + span + 1]
            if len(run_) != span + 1 or not all(b in contiguous for b in run_): continue
            all_ = [r for b in run_ for r in flat(name, b)]
            for (c1, v1) in boundary(name, run_[0])[:6] + boundary(name, run_[0])[-2:]:
                for (c2, v2) in boundary(name, run_[-1])[:2] + boundary(name, run_[-1])[-3:]:
                    for s1, s2 in (("", ""), ("b", "a")):
                        r1, r2 = (run_[0], c1, v1, s1), (run_[-1], c2, v2, s2)
                        key = f"{name} {orderName} {run_[0]} {c1}:{v1}{s1}-{run_[-1]} {c2}:{v2}{s2}"
                        with ctx.case(key):
                            ctx.step(); ctx.state(name, run_[0], run_[-1], c1, v1, c2, v2)
                            got = s.expandCVRange(r1, r2, "x", o)
                            ctx.equal(got, expand(all_, r1[:3], r2[:3], s1, s2) if ok(s, r1) and ok(s, r2) else None, key, "expanded range")
            r1, r2 = (run_[-1], "1", "1", ""), (run_[0], "1", "1", "")
            with ctx.case(f"{name} {orderName} backwards {run_[0]}"):
                ctx.equal(s.expandCVRange(r1, r2, "x", o), None, f"{name} {orderName} backwards {run_[0]}", "books out of order")
                ctx.equal(s.expandCVRange(r2, r1, "x"), None, f"{name} {orderName} no order {run_[0]}", "several books without an order")
        if ctx.full: return

def usable(name):
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    o = BibleOrganisationalSystem(name)
    vs, books_ = o.getOrganisationalSystemValue("versificationSystem"), o.getBookList()
    if vs not in X or not books_ or any(b not in X[vs] for b in books_): return None, None, None
    return o, vs, books_

def absolute(ctx, name):
    """Use every other system first, then this one: its numbers must not depend on that."""
    try: o, vs, books_ = usable(name)
    except Exception: return
    if o is None: return
    firsts = ["(none)"] + bosnames
    table, n = [], 0
    for b in books_:
        for c, nv in X[vs][b][1]:
            table.append((b, c, n + 1, n + nv)); n += nv
    for first in firsts if not ctx.quick else firsts[:1] + firsts[1::6] + firsts[2::9]:
        key = f"abs {first} then {name}"
        with ctx.case(key):
            if first != "(none)":
                try: o1, vs1, books1 = usable(first)
                except Exception: continue
                if o1 is None: continue
                o1.convertAbsoluteVerseNumber(1)
            o, _, _ = usable(name)
            ctx.state(key)
            for b, c, a, z in table:
                ctx.step()
                if z < a: continue
                got = (o.getAbsoluteVerseNumber(b, c, "1"), o.getAbsoluteVerseNumber(b, int(c), z - a + 1), o.getAbsoluteVerseNumber(b, c, z - a + 2), o.getAbsoluteVerseNumber(b, c, "0"))
                if not ctx.equal(got, (a, z, None, None), key, f"absolute numbers of {b} {c}"): break
                if first == "(none)" or c == "1":
                    if not ctx.equal((o.convertAbsoluteVerseNumber(a), o.convertAbsoluteVerseNumber(z)), ((b, c, "1"), (b, c, str(z - a + 1))), key, f"references of {a} and {z}"): break
            ctx.equal(o.convertAbsoluteVerseNumber(n + 1), None, key, "number beyond the last verse")
