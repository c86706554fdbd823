"""I06: the entry/extra containers (all operation sequences against plain Python lists)."""
import itertools
import lib

PROP = dict(
    title="Entry and note containers behave as value-preserving lists",
    statement="Lists of Bible entries and of notes keep exactly the objects put in, in order, under any sequence of append, extend, pop, slicing and addition; "
              "none of the reading operations (indexing, slicing, +, contains, checkForIndex, summaries) changes a list, pop of an empty list gives None, "
              "and the positional fields of an entry or note agree with its named getters and compare by value.",
    over=["histories", "inputs"],
    qtext="all sequences of operations up to the bound on two lists, compared after each one with plain Python lists; all field combinations of entries and notes over a small alphabet",
    why="There are no tests of these classes, and aliasing between lists shows only when an operation is followed by another one on the other list.",
    files=["BibleOrgSys/Internals/InternalBibleInternals.py"],
    mechanism=[("InternalBibleEntryList / InternalBibleExtraList", "BibleOrgSys/Internals/InternalBibleInternals.py"), ("InternalBibleEntry / InternalBibleExtra", "BibleOrgSys/Internals/InternalBibleInternals.py")],
)
BOUNDS = "sequences of <=5 (quick) / <=6 (thorough) operations from 10, for entries and for notes, on two lists; entries over 3x3x2x3x3 field values"
ASSUMPTIONS = []

def setup(tier):
    global I, objs
    lib.bos()
    from BibleOrgSys.Internals import InternalBibleInternals as I
    E, X, XL = I.InternalBibleEntry, I.InternalBibleExtra, I.InternalBibleExtraList
    objs = dict(e=[E("v~", "v", "a b", "a b", None, "a b"), E("p", "p", "", "", None, ""), E("¬p", None, None, "", None, None)],
                x=[X("fn", 3, "+ \\ft one", "one", "GEN 1:1"), X("xr", 3, "+ \\xt two", "two", "GEN 1:1"), X("ww", 7, "three|l", "three|l", "GEN 1:1")])

OPS = ["append0", "append1", "append2", "popA", "extendB", "A+B", "B=A", "B=slice", "B=[:1]", "A+=B"]

def shards(tier):
    n = 5 if tier == "quick" else 6
    return [("seq", t, a, b, n) for t in "ex" for a in range(len(OPS)) for b in range(len(OPS))] + [("entry",), ("extra",)]

def run(ctx, shard):
    if shard[0] == "seq":
        _, t, a, b, n = shard
        for k in range(1, n + 1):
            if k < 2 and b: continue
            for rest in itertools.product(range(len(OPS)), repeat=max(0, k - 2)):
                ops = ([a] if k == 1 else [a, b]) + list(rest)
                sequence(ctx, t, ops)
                if ctx.full: return
    elif shard[0] == "entry": entries(ctx)
    else: extras(ctx)

def same(ctx, L, model, key, what):
    got = [L[i] for i in range(len(L))]
    if len(got) != len(model) or any(g is not m for g, m in zip(got, model)):
        ctx.violation(key, f"{what}: list holds {got!r} but should hold {model!r}"); return False
    return True

def sequence(ctx, t, ops):
    C = I.InternalBibleEntryList if t == "e" else I.InternalBibleExtraList
    o = objs[t]
    key = t + ":" + ",".join(OPS[i] for i in ops)
    with ctx.case(key):
        A, B = C(), C([o[0]])
        a, b = [], [o[0]]
        for i in ops:
            op = OPS[i]
            ctx.step()
            if op.startswith("append"): A.append(o[int(op[-1])]); a = a + [o[int(op[-1])]]
            elif op == "popA":
                r = A.pop(); w = a[-1] if a else None; a = a[:-1]
                if r is not w: ctx.violation(key, f"pop returned {r!r} instead of {w!r}"); return
            elif op == "extendB": A.extend(B); a = a + b
            elif op == "A+B":
                if t == "x": continue
                R = A + B
                if not same(ctx, R, a + b, key, "A+B"): return
                R.append(o[0])
            elif op == "A+=B":
                if t == "x": continue
                A += B; a = a + b
            elif op == "B=A": B = C(A); b = list(a)
            elif op == "B=slice": B = A[1:]; b = a[1:]
            elif op == "B=[:1]": B = A[:1]; b = a[:1]
            if not same(ctx, A, a, key, f"A after {op}") or not same(ctx, B, b, key, f"B after {op}"): return
        # readers
        ctx.state(t, tuple(o.index(x) for x in a), tuple(o.index(x) for x in b))
        if not ctx.equal([x for x in A], a, key, "iteration") : return
        for s in (slice(None), slice(0, 2), slice(1, None, 2), slice(-1, None)):
            if not same(ctx, A[s], a[s], key, f"slice {s}"): return
        if t == "e":
            for m in ("v~", "p", "¬p", "zz"):
                want = next((j for j, x in enumerate(a) if x.marker == m), None)
                if not ctx.equal(A.contains(m), want, key, f"contains {m}"): return
                w1 = next((j for j, x in enumerate(a[:2]) if x.marker == m), None)
                if not ctx.equal(A.contains(m, 1), w1, key, f"contains {m} in two lines"): return
        else:
            for ix in (3, 7, 0):
                hits = [x for x in a if x.index == ix]
                r = A.checkForIndex(ix)
                want = None if not hits else hits[0] if len(hits) == 1 else hits
                if isinstance(want, list):
                    good = isinstance(r, list) and len(r) == len(want) and all(p is q for p, q in zip(r, want))
                else: good = r is want
                if not good: ctx.violation(key, f"checkForIndex({ix}) gave {r!r} instead of {want!r}"); return
            if a:
                for text in (A.summary(), A.fullSummary()):
                    for x in a:
                        if x.myType not in text: ctx.violation(key, f"summary {text!r} lacks a note"); return
        str(A); repr(B)
        same(ctx, A, a, key, "A after reading"); same(ctx, B, b, key, "B after reading")

def entries(ctx):
    XL, X = I.InternalBibleExtraList, I.InternalBibleExtra
    ex = [None, XL(), XL([X("fn", 0, "+ \\ft n", "n", "")])]
    combos = list(itertools.product(("v~", "p", "q1"), ("v", "p", "q"), ("a _b_ c", "x\\nd y\\nd*"), ("a _b_ c", "x y"), range(3), ("a", "o \\f + \\ft n\\f*")))
    made = [I.InternalBibleEntry(m, om, at, ct, ex[e], ot) for m, om, at, ct, e, ot in combos]
    for (m, om, at, ct, e, ot), en in zip(combos, made):
        key = repr((m, om, at, ct, e, ot))
        with ctx.case(key):
            ctx.step(); ctx.state(key)
            ctx.equal(len(en), 6, key, "len")
            fields = (m, om, at, ct, ex[e], ot)
            ctx.expect(all(en[i] is fields[i] for i in range(6)), key, "positional fields")
            ctx.equal(list(en)[:4], list(fields)[:4], key, "iteration")
            ctx.expect((en.getMarker(), en.getOriginalMarker(), en.getAdjustedText(), en.getText(), en.getCleanText(), en.getOriginalText(), en.getFullText())
                       == (m, om, at, at, ct, ot, ot) and en.getExtras() is ex[e], key, "getters")
            ctx.equal(en.getCleanText(True), "a b c" if "_" in ct else ct, key, "clean text without ESFM underlines")
            str(en), repr(en)
            new = I.InternalBibleEntry(m, om, at, ct, ex[e], ot)
            if not ex[e]:
                new.setCleanText("zz")
                ctx.equal((new.getCleanText(), new.getAdjustedText(), new.getOriginalText(), new.getMarker(), new.getOriginalMarker()), ("zz", "zz", "zz", m, om), key, "setCleanText")
    for i, p in enumerate(made):
        m, om, at, ct, e, ot = combos[i]
        with ctx.case(f"eq {combos[i]!r}"):
            for j, q in enumerate(made):
                if (p == I.InternalBibleEntry(*combos[j][:4], ex[combos[j][4]], combos[j][5])) != (i == j) or (p != q) != (i != j):
                    ctx.violation(f"eq {combos[i]!r}", f"comparison with {combos[j]!r} is wrong"); break
            ctx.expect(p != 1 and not (p == None), "eq other", "comparison with other types")

def extras(ctx):
    combos = list(itertools.product(("fn", "xr"), (0, 5), ("+ \\ft a", "b"), ("a", "b")))
    for i, c in enumerate(combos):
        with ctx.case(repr(c)):
            ctx.state(c); ctx.step()
            x = I.InternalBibleExtra(*c, "GEN 1:1")
            ctx.equal((len(x), tuple(x), x.getType(), x.getIndex(), x.getText(), x.getCleanText()), (4, c) + c, repr(c), "fields")
            for j, d in enumerate(combos):
                y = I.InternalBibleExtra(*d, "GEN 2:2")
                ctx.expect((x == y) == (i == j) and (x != y) == (i != j), f"{c} {d}", "comparison")
    lists = [I.InternalBibleExtraList([I.InternalBibleExtra(*combos[i], "")for i in ii]) for ii in ((), (0,), (1,), (0, 1), (1, 0))]
    again = [I.InternalBibleExtraList([I.InternalBibleExtra(*combos[i], "")for i in ii]) for ii in ((), (0,), (1,), (0, 1), (1, 0))]
    for i, p in enumerate(lists):
        for j, q in enumerate(again):
            with ctx.case(f"lists {i} {j}"):
                ctx.expect((p == q) == (i == j) and (p != q) == (i != j), f"lists {i} {j}", "comparison of note lists")
