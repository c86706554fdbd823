"""R04: book orders (every system x every pair of books)."""
import itertools
import lib
from checks import tables

PROP = dict(
    title="Every book order is a total order that all its queries agree on",
    statement="In every published book order, and in every Bible organisational system built on one, position, book-at-position, next, previous, membership and 'is before' describe one and the same sequence: "
              "next and previous are inverse, position and book are inverse, and no book is lost or repeated. A system that includes only some of the books skips exactly the others when stepping.",
    over=["configurations", "inputs"],
    qtext="every book order system and organisational system of the data files x every ordered pair of books",
    why="The tests look at two systems and a few books; the guarantee is about all pairs in all systems.",
    files=["BibleOrgSys/Reference/BibleBookOrders.py", "BibleOrgSys/Reference/BibleOrganisationalSystems.py"],
    mechanism=[("BibleBookOrderSystem", "BibleOrgSys/Reference/BibleBookOrders.py"), ("BibleOrganisationalSystem", "BibleOrgSys/Reference/BibleOrganisationalSystems.py: getNextBookCode/getPreviousBookCode")],
)
BOUNDS = "complete: all book order systems and all organisational systems with a book order, all pairs of books"
ASSUMPTIONS = ["the XML book order files are the specification of the orders"]

def setup(tier):
    global X, sysnames, bosnames, bbos, boss
    lib.bos()
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystems
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystems
    X = tables.book_orders()
    bbos = BibleBookOrderSystems().loadData()
    boss = BibleOrganisationalSystems().loadData()
    sysnames = list(X)
    bosnames = boss.getAvailableOrganisationalSystemNames()

def shards(tier):
    return [("sys", n) for n in sysnames] + [("bos", i) for i in range(len(bosnames))] + [("all",), ("check",)]

def run(ctx, shard):
    if shard[0] == "sys": system(ctx, shard[1])
    elif shard[0] == "bos": org(ctx, bosnames[shard[1]])
    elif shard[0] == "all":
        with ctx.case("names"):
            ctx.equal(sorted(bbos.getAvailableBookOrderSystemNames()), sorted(X), "names", "available systems")
            ctx.equal(len(bbos), len(X), "names", "number of systems")
            ctx.expect("NoSuchSystem" not in bbos and bbos.getBookOrderSystem("NoSuchSystem") is None, "names", "unknown system accepted")
    else: matching(ctx)

def system(ctx, name):
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
    s = BibleBookOrderSystem(name)
    want = [b for _, b in sorted(X[name])]
    with ctx.case(name):
        ctx.state(name)
        ctx.equal(list(s.getBookOrderList()), want, name, "order list")
        ctx.equal(list(bbos.getBookOrderList(name)), want, name, "order list of the collection")
        ctx.equal(len(set(want)), len(want), name, "a book appears twice")
        ctx.equal((len(s), s.numBooks(), bbos.numBooks(name)), (len(want),) * 3, name, "number of books")
        ctx.expect(name in bbos, name, "system not contained")
        ctx.equal(s.getBookOrderSystemName(), name, name, "name")
    for i, b in enumerate(want):
        key = f"{name} {b}"
        with ctx.case(key):
            ctx.equal(s.getBookOrderPosition(b), i + 1, key, "position")
            ctx.equal(s.getBookAtOrderPosition(i + 1), b, key, "book at position")
            ctx.equal(s.getNextBookCode(b), want[i + 1] if i + 1 < len(want) else None, key, "next book")
            ctx.equal(s.getPreviousBookCode(b), want[i - 1] if i else None, key, "previous book")
            ctx.expect(b in s and s.containsBook(b) and bbos.containsBook(name, b), key, "book not contained")
            for j, c in enumerate(want):
                ctx.step()
                if s.correctlyOrdered(b, c) != (i < j): ctx.violation(key, f"correctlyOrdered({b},{c})"); break
    from BibleOrgSys import BibleOrgSysGlobals as G
    for b in G.loadedBibleBooksCodes:
        if b not in want:
            with ctx.case(f"{name} not {b}"):
                ctx.step(); ctx.expect(b not in s and not s.containsBook(b) and not bbos.containsBook(name, b), f"{name} not {b}", "foreign book contained")

def org(ctx, name):
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    o = None
    with ctx.case(f"bos {name}"):
        o = BibleOrganisationalSystem(name)
        orderName = o.getOrganisationalSystemValue("bookOrderSystem")
        books = o.getBookList()
    if o is None or orderName not in X: return      # no such book order is published
    want = [b for _, b in sorted(X[orderName])]
    mine = [b for b in want if b in books]
    ctx.state(name, tuple(mine))
    with ctx.case(f"bos {name}"):
        ctx.equal(o.getBookOrderSystemName(), orderName, f"bos {name}", "book order system")
        ctx.equal(o.getFirstBookCode(), want[0], f"bos {name}", "first book")
    for i, b in enumerate(want):
        key = f"bos {name} {b}"
        with ctx.case(key):
            after = [c for c in want[i + 1:] if c in books]
            before = [c for c in want[:i] if c in books]
            ctx.equal(o.getNextBookCode(b), after[0] if after else None, key, "next included book")
            ctx.equal(o.getPreviousBookCode(b), before[-1] if before else None, key, "previous included book")
            ctx.equal(o.containsBook(b), b in books, key, "contains book")
            ctx.equal(o.getBookOrderPosition(b), i + 1, key, "position")
            for c in want:
                ctx.step()
                if o.correctlyOrdered(b, c) != (i < want.index(c)): ctx.violation(key, f"correctlyOrdered({b},{c})"); break

def matching(ctx):
    """checkBookOrderSystem counts exactly the systems which the given list is a subsequence of."""
    import argparse
    from BibleOrgSys import BibleOrgSysGlobals as G
    G.commandLineArguments = argparse.Namespace(export=False)
    orders = {n: [b for _, b in sorted(X[n])] for n in X}
    def sub(a, b):
        it = iter(b)
        return all(x in it for x in a)
    cand = []
    for n in orders:
        o = orders[n]
        cand += [o, o[:5], o[-5:], o[::7], o[:1], [o[1], o[0]], o[:3] + o[4:2:-1], o[::-1]]
    pool = ["GEN", "RUT", "JOB", "MAL", "MAT", "ACT", "JAM", "REV", "TOB"]
    cand += [list(p) for k in (1, 2, 3) for p in itertools.permutations(pool, k)]
    for c in cand:
        if not c: continue
        key = "match " + " ".join(c)[:80]
        with ctx.case(key):
            ctx.step()
            ctx.equal(bbos.checkBookOrderSystem("test", c), sum(sub(c, o) for o in orders.values()), key, "number of matching systems")
            ctx.state(tuple(c))
