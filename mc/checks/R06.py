"""R06: names of books and divisions, and the values of organisational systems (all small naming tables, all published tables x book lists)."""
import itertools
import xml.etree.ElementTree as ET
import lib

PROP = dict(
    title="Book and division names lead to exactly the book or division they name",
    statement="In every naming system and for every list of books, each full name and each abbreviation given for a book of the list finds that book, in upper or lower case and with any of the given leaders (1/I/First …). "
              "A shortened form (without final letters or without its spaces) finds a book exactly if it fits the names of only one book of the list; one that fits several is never guessed, nor does it hide a name that was given explicitly. The same holds for the names of divisions, whose book lists are as published. "
              "Looking in all naming systems prefers an exact name to the start of another one. An organisational system has its own values, else those of the text it uses or is derived from.",
    over=["configurations", "inputs"],
    qtext="all naming tables of two books and a division over a small set of names; every published naming system x every published book list, every book and pairs of books",
    why="Whether an abbreviation is ambiguous depends on all the other names in the list; the tests look up some names in two systems.",
    files=["BibleOrgSys/Reference/BibleBooksNames.py", "BibleOrgSys/Reference/BibleOrganisationalSystems.py"],
    mechanism=[("expandBibleNamesInputs", "BibleOrgSys/Reference/BibleBooksNames.py"), ("BibleBooksNamesSystem.getBBBFromText/getDivisionAbbreviation", "BibleOrgSys/Reference/BibleBooksNames.py"), ("BibleOrganisationalSystem.getOrganisationalSystemValue", "BibleOrgSys/Reference/BibleOrganisationalSystems.py")],
)
BOUNDS = "complete: all naming systems x all published book lists and single books, thorough: x all pairs of books; all tables of two books with two names each and one or two divisions over 9 (thorough: 12) names and three leaders; all organisational systems and values"
ASSUMPTIONS = ["the XML naming files and organisational systems are the specification", "a name which a table gives to two books may find either", "a division's abbreviation which is the start of its name is only a shortened form", "division and book names share one list of ambiguous forms (as documented)", "names which are not in the table fall back to the book codes (R03)"]

# ---- the model
def derived(field, leaders):
    F = field.upper()
    out = set()
    for v in [F] + [F.replace(a, r) for a, rs in leaders.items() if F.startswith(a) for r in rs]:
        for n in range(1, len(v) + 1):
            t = v[:n]
            if t.isdigit() or t.endswith(" "): continue
            out.add(t)
            while " " in t: t = t.replace(" ", "", 1); out.add(t)
    return out

def table(books, divs, leaders):
    """-> for books and divisions: {name: set of allowed answers} (a name in neither is not found)"""
    leaders = {a.upper(): [r.upper() for r in rs] for a, rs in leaders.items()}
    ex, der = [], []
    for d in (divs, books):
        e, o = {}, {}
        for k, fs in d.items():
            for f in fs:
                e.setdefault(f.upper(), set()).add(k)
                for s in derived(f, leaders): o.setdefault(s, set()).add(k)
        ex.append(e); der.append(o)
    ambiguous = {s for e, o in zip(ex, der) for s, ks in o.items() if s in e or len(ks) > 1} | (set(ex[0]) & set(ex[1]))
    res = []
    unsure = {s for e in ex for f, ks in e.items() if len(ks) > 1 for s in derived(f, leaders)}   # forms of names given to two books
    for e, o in zip(ex, der):
        r = {s: set(ks) for s, ks in e.items()}
        for s, ks in o.items():
            if s not in ambiguous: r[s] = ks
        for s in unsure - set(e): r[s] = o.get(s, set()) | {None}
        res.append(r)
    return res[1], res[0], set(der[0]) | set(der[1]) | set(ex[0]) | set(ex[1])

def published():
    res = {}
    for f in sorted((lib.DATA / "BookNames").glob("BibleBooksNames_*.xml")):
        root = ET.parse(f).getroot()
        g = lambda el: [(el.find(t).text or "").strip() for t in ("defaultName", "defaultAbbreviation")] + [(i.text or "").strip() for i in el.findall("inputAbbreviation")]
        res[f.stem[len("BibleBooksNames_"):]] = dict(
            books={el.get("referenceAbbreviation"): g(el) for el in root.findall("BibleBookNames")},
            divisions={el.get("standardAbbreviation"): ([f for i, f in enumerate(g(el)) if i != 1 or not g(el)[0].startswith(f)], [(i.text or "").strip() for i in el.findall("includesBook")]) for el in root.findall("BibleDivisionNames")},
            leaders={el.get("standardLeader") + " ": [i.text + " " for i in el.findall("inputAbbreviation")] for el in root.findall("BibleBooknameLeaders")})
    return res

def organisations():
    """extended name -> values"""
    res = {}
    for el in ET.parse(lib.DATA / "BibleOrganisationalSystems.xml").getroot().findall("BibleOrganisationalSystem"):
        ra, t = el.find("referenceAbbreviation").text, el.get("type")
        d = {"referenceAbbreviation": ra, "type": t, "languageCode": el.find("languageCode").text}
        for n in ("publicationDate", "versificationSystem", "punctuationSystem", "bookOrderSystem", "booksNamesSystem"):
            x = el.findall(n)
            if x: d[n] = {y.text for y in x}
        if el.find("includesBooks") is not None: d["includesBooks"] = el.find("includesBooks").text.split()
        for n in ("name", "derivedFrom", "usesText"):
            x = [y.text for y in el.findall(n)]
            if x: d[n] = x
        res[ra if ra.endswith("_" + t) else f"{ra}_{t}"] = d
    return res

TYPES = ("edition", "revision", "translation", "original")
def which(name):
    if name in O: return name
    return next((f"{name}_{t}" for t in TYPES if f"{name}_{t}" in O), None)

def value(ext, what, seen=()):
    """Own value, else that of a text which it uses or is derived from"""
    d = O[ext]
    if what in d: return d[what]
    for p in d.get("usesText", []) + d.get("derivedFrom", [])[:1]:
        q = which(p)
        if q == ext: q = next((f"{p}_{t}" for t in reversed(TYPES) if f"{p}_{t}" in O and f"{p}_{t}" != ext), None)
        if q and q not in seen:
            v = value(q, what, (*seen, ext))
            if v is not None: return v

# ---- shards
NAMES = ["A", "AB", "a b", "1 A", "1 AB", "2 A", "ABC", "Sa A", "B", "I AB", "AC", "1A"]
LEAD = {"1 ": ["I ", "F. "], "2 ": ["II "], "Sa ": ["S "]}

def setup(tier):
    global G, X, O, N, BO, systems, LISTS
    G = lib.bos()
    from BibleOrgSys.Reference import BibleBooksNames as N
    from BibleOrgSys.Reference import BibleOrganisationalSystems as BO
    X, O = published(), organisations()
    systems = N.BibleBooksNamesSystems().loadData()
    LISTS = []
    for d in O.values():
        l = d.get("includesBooks")
        if l and l not in LISTS: LISTS.append(l)

def shards(tier):
    n = 9 if tier == "quick" else 12
    return ([("small", i, j, n) for i in range(n) for j in range(n)] + [("lists", s, i) for s in X for i in range(-1, len(LISTS))]
            + ([("pairs", s, b) for s in X for b in X[s]["books"]] if tier != "quick" else [("single", s) for s in X]) + [("all",)] + [("org", e) for e in O])

def run(ctx, shard):
    k = shard[0]
    if k == "small": small(ctx, *shard[1:])
    elif k == "lists": one(ctx, shard[1], LISTS[shard[2]] if shard[2] >= 0 else list(X[shard[1]]["books"]), True)
    elif k == "single":
        for b in X[shard[1]]["books"]: one(ctx, shard[1], [b], False)
    elif k == "pairs":
        books = list(X[shard[1]]["books"])
        for b in books[books.index(shard[2]):]: one(ctx, shard[1], list(dict.fromkeys([shard[2], b])), False)
    elif k == "all": everything(ctx)
    else: organisation(ctx, shard[1])

def small(ctx, i, j, n):
    names = NAMES[:n]
    for a, b in itertools.combinations_with_replacement(range(n), 2):
        for divs in [(x,) for x in names[:6]] + ([(x, y) for x in names[:4] for y in names[4:8]] if ctx.tier != "quick" else [("AB", "ABC")]):
            D = {f"D{k}": [f] for k, f in enumerate(divs)}
            B = {"GEN": [names[i], names[j]], "EXO": [names[a], names[b]]}
            key = f"books {B} divisions {D}"
            with ctx.case(key):
                ctx.step(); ctx.state(key)
                bn, dn, universe = table(B, D, LEAD)
                gd, gb = N.expandBibleNamesInputs("test", {d: {"inputFields": f} for d, f in D.items()}, LEAD, {x: {"inputFields": f} for x, f in B.items()}, list(B))
                for what, got, want in (("book", gb, bn), ("division", gd, dn)):
                    for s in universe | set(got):
                        ctx.expect(got.get(s) in want.get(s, {None}), f"{key} {what} {s!r}", f"finds {got.get(s)}, should find {want.get(s)}")
            if ctx.full: return
    ctx.sample(key)

def one(ctx, name, books, whole):
    x = X[name]
    B = {b: x["books"][b] for b in books if b in x["books"]}
    D = {d: f for d, (f, inc) in x["divisions"].items() if set(inc) & set(books)}
    if not B or not D: return   # nothing to look up
    key = f"{name} {' '.join(books) if len(books) < 4 else f'{books[0]}…{books[-1]} ({len(books)})'}"
    with ctx.case(key, seconds=120):
        ctx.state((name, tuple(books)))
        s = N.BibleBooksNamesSystem(name, books)
        bn, dn, universe = table(B, D, x["leaders"])
        for b in books:
            got = s.getBookName(b), s.getBookAbbreviation(b)
            ctx.equal(got, tuple(x["books"][b][:2]) if b in B else (b, b), key + f" {b}", "name and abbreviation")
        explicit = {f for fs in (*B.values(), *D.values()) for f in fs}
        if whole: universe = universe | {u for b, fs in x["books"].items() if b not in B for f in fs for u in (f.upper(), f.upper()[:3].strip()) if u}
        for u in [*universe, *explicit, *(f.lower() for f in explicit)]:
            ctx.step()
            U = u.upper()
            want = bn[U] if U in bn and None not in bn[U] else bn.get(U, set()) | {G.loadedBibleBooksCodes.getBBBFromText(u)}
            got = s.getBBBFromText(u)
            ctx.expect(got in want, f"{key} {u!r}", f"finds book {got}, should find {want}")
            got = s.getDivisionAbbreviation(u)
            ctx.expect(got in dn.get(U, {None}), f"{key} {u!r}", f"finds division {got}, should find {dn.get(U)}")
            wants = [x["divisions"][u][1]] if u in D else [x["divisions"][d][1] for d in dn.get(U, ()) if d] + [None] * (u not in D and None in dn.get(U, {None}))
            got = s.getDivisionBooklist(u)
            ctx.expect(got in wants, f"{key} {u!r}", f"division books {got}, should be one of {wants}")
    ctx.sample(key)

def everything(ctx):
    with ctx.case("systems"):
        ctx.equal(sorted(systems.getAvailableBooksNamesSystemNames()), sorted(X), "systems", "available systems")
        ctx.equal((len(systems), systems.getAvailableLanguageCodes()), (len(X), {s[:3] for s in X}), "systems", "number and languages")
        for l in {s[:3] for s in X}:
            ctx.equal(sorted(systems.getAvailableBooksNamesSystemNames(l)), sorted(s[4:] for s in X if s[:3] == l), f"systems {l}", "systems of the language")
        ctx.expect("eng" not in systems and systems.getBooksNamesSystem("eng") is None and all(s in systems for s in X), "systems", "contained systems")
    exact, starts = {}, {}
    for x in X.values():
        for b, fs in x["books"].items():
            for f in fs:
                exact.setdefault(f.upper(), set()).add(b)
                for n in range(1, len(f) + 1): starts.setdefault(f.upper()[:n], set()).add(b)
    for u in [*starts, *(s + "Q" for s in exact), *(s.lower() for s in exact)]:
        key = f"all systems {u!r}"
        with ctx.case(key):
            ctx.step(); ctx.state(u)
            got = systems.getBBBFromText(u)
            want = exact.get(u.upper()) or starts.get(u.upper(), {None})
            ctx.expect(got in want, key, f"finds {got}, should find {want}")

VALUES = ("versificationSystem", "punctuationSystem", "bookOrderSystem", "booksNamesSystem", "includesBooks", "publicationDate", "languageCode")
def organisation(ctx, ext):
    boss = BO.BibleOrganisationalSystems().loadData()
    d = O[ext]
    for name in (ext, d["referenceAbbreviation"]):
        me = which(name)
        key = f"organisation {name}"
        with ctx.case(key, seconds=120):
            ctx.step(); ctx.state(name)
            got = boss.getOrganisationalSystem(name)
            for k, v in O[me].items():
                ctx.expect(got.get(k) == v if not isinstance(v, set) else got.get(k) in v, key, f"{k} is {got.get(k)}, should be {v}")
            s = BO.BibleOrganisationalSystem(name)
            ctx.equal((s.getOrganisationalSystemName(), s.getOrganisationalSystemType()), (name, O[me]["type"]), key, "name and type")
            for v in VALUES:
                want, got = value(me, v), s.getOrganisationalSystemValue(v)
                if me != name and v not in O[me] and which(name) != ext: continue
                ctx.expect(got in want if isinstance(want, set) else got == want, key, f"{v} is {got}, should be {want}")
                if v in O[me]: ctx.expect(boss.getOrganisationalSystemValue(name, v) == got, key, f"{v} differs in the collection")
            books = value(me, "includesBooks") or []
            ctx.equal(s.getBookList(), books, key, "books")
            for b in ("GEN", "MAT", "TOB", "FRT", "PSA"): ctx.equal(s.containsBook(b), b in books, f"{key} {b}", "contains")
            ns = value(me, "booksNamesSystem")
            ns = ns and next(iter(ns))
            if ns in X and books:
                bn = table({b: X[ns]["books"][b] for b in books if b in X[ns]["books"]}, {"?": []}, X[ns]["leaders"])[0]
                for b in books:
                    for f in X[ns]["books"].get(b, ()):
                        got = s.getBBBFromText(f)
                        ctx.expect(got in bn[f.upper()], f"{key} {f!r}", f"finds {got}, should find {bn[f.upper()]}")
