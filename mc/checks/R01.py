"""R01: verse reference keys (all reference texts of the supported grammar up to bounds, parsed by the real classes)."""
import itertools
import lib

PROP = dict(
    title="A verse reference key stands for exactly the verses its text names",
    statement="A single-verse key gives back its book, chapter, verse and suffix or index, prints as the same text and short text, and equals another key exactly if they name the same verse part (then their hashes agree too). "
              "A key for several verses, a range or a mixture of ranges and verses contains exactly the named verses in order, with their suffixes, and prints as text that parses to the same verses. "
              "A text which is no reference is refused rather than read as something else.",
    over=["inputs"],
    qtext="every book code; all references with up to nine items of the accepted shapes over boundary chapters, verses and suffixes; all single-character corruptions of references",
    why="No test constructs these keys; the parsers are dozens of copied regular expressions with hand-numbered groups, each of which must pick the right ones.",
    files=["BibleOrgSys/Reference/VerseReferences.py"],
    mechanism=[("SimpleVerseKey / SimpleVersesKey / VerseRangeKey / FlexibleVersesKey", "BibleOrgSys/Reference/VerseReferences.py")],
)
BOUNDS = ("single keys: every book code; chapters and verses {1,9,10,99,100,199,..} x suffixes/indexes, all ordered pairs for equality; lists: 2-9 verses in one chapter, 2-3 in different chapters; "
          "ranges within a chapter and over chapters; every accepted mixture of ranges and verses; each with every suffix pattern (quick: at most two suffixes) ; corruptions: every deletion, replacement and insertion of one character of 9 texts")
ASSUMPTIONS = ["internal reference format only (the OSIS variant of the multi-verse parsers has never worked and is listed in DESIGN.md)", "ranges over chapters know no versification: only their first and last verse, order and containment are required"]

def setup(tier):
    global S, M, R, F, G
    lib.bos()
    from BibleOrgSys import BibleOrgSysGlobals as G
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey as S, SimpleVersesKey as M, VerseRangeKey as R, FlexibleVersesKey as F

CH = ["1", "2", "9", "10", "19", "99", "100", "119", "150", "199"]
VS = ["1", "3", "9", "10", "29", "99", "100", "176", "199"]
SUF = ["", "a", "b", "c", "d"]
IX = ["0", "5", "42", "101", "999"]
# the accepted mixtures: v = one verse, r = a range of verses
SHAPES = ["rv", "rvv", "rvvv", "rvvvv", "vr", "vrr", "vvrr", "rvr", "rvvr", "vvr", "vvvr", "vvvvr", "vrv", "vvrv", "rr", "rrv", "rrvv", "rrr", "rrrr"]

def shards(tier):
    return ([("codes",), ("single",), ("equal",), ("bad",), ("range",), ("chapters",), ("cranges",)] + [("list", n) for n in range(2, 10)] + [("clist", n) for n in (2, 3)] + [("mix", s) for s in SHAPES])

def run(ctx, shard): globals()["do_" + shard[0]](ctx, *shard[1:])

def bcvs(k): return (k.getBBB(), k.getChapterNumStr(), k.getVerseNumStr(), k.getVerseSuffix() or "", k.getVerseIndex())
def sfx(s): return "!" + s if s else ""

def one(ctx, k, B, C, V, s, i, key):
    text = f"{B}_{C}:{V}{sfx(s or i)}"
    ctx.equal(bcvs(k), (B, C, V, s, i), key, "parts of the key")
    ctx.equal((k.getBCV(), k.getCV(), k.getChapterNumber(), k.getVerseNumber(), k.getChapterNumberInt(), k.getVerseNumberInt()), ((B, C, V), (C, V), C, V, int(C), int(V)), key, "parts")
    ctx.equal(tuple(k[j] for j in range(4)), (B, C, V, i if i is not None else s), key, "items")
    ctx.equal(len(k), 4, key, "length")
    ctx.equal((k.getBCVI(), k.getCVI()), ((B, C, V, i), (C, V, i)), key, "parts with index")
    if i is None: ctx.equal((k.getBCVS(), k.getCVS()), ((B, C, V, s), (C, V, s)), key, "parts with suffix")
    ctx.equal(k.getVerseKeyText(), text, key, "text")
    ctx.equal(k.getShortText(), f"{B} {C}:{V}" + (s if i is None else "!" + i), key, "short text")
    ctx.equal([bcvs(x) for x in k.getIncludedVerses()], [(B, C, V, s, i)], key, "included verses")
    osis = G.loadedBibleBooksCodes.getOSISAbbreviation(B)
    if osis: ctx.equal(k.getOSISReference(), f"{osis}.{C}.{V}", key, "OSIS reference")

def do_codes(ctx):
    for B in G.loadedBibleBooksCodes:
        for C, V, s in (("1", "1", ""), ("22", "13", "b")):
            text = f"{B}_{C}:{V}{sfx(s)}"
            with ctx.case(text):
                ctx.step(); ctx.state(text)
                one(ctx, S(text), B, C, V, s, None, text)
                one(ctx, S(B, C, V, s), B, C, V, s, None, text)
                ctx.equal([bcvs(k) for k in F(text).getIncludedVerses()], [(B, C, V, s, None)], text, "included verses")

def do_single(ctx):
    for C in CH:
        for V in VS:
            for s, i in [(s, None) for s in SUF] + [("", i) for i in IX]:
                text = f"GEN_{C}:{V}{sfx(s or i)}"
                with ctx.case(text):
                    ctx.step(2); ctx.state(text)
                    a, b = S(text), S("GEN", C, V, s or i)
                    for k in (a, b, S("GEN", int(C), int(V), int(i) if i else s)):
                        if i is None: one(ctx, k, "GEN", C, V, s, None, text)
                        else: ctx.equal((k.getBCV(), k.getVerseIndex(), k.getVerseKeyText(), k.getShortText()), (("GEN", C, V), i, text, f"GEN {C}:{V}!{i}"), text, "key with index")
                    ctx.expect(a == b and not a != b and hash(a) == hash(b), text, "equal keys")
    for C, V in (("-1", "0"), ("-1", "15"), ("0", "3"), ("1", "0")):
        with ctx.case(f"intro {C}:{V}"):
            ctx.step(); ctx.state(C, V)
            k = S("GEN", C, V)
            ctx.equal((k.getBCV(), k.getShortText(), k.getChapterNumberInt(), k.getVerseNumberInt()), (("GEN", C, V), f"GEN {C}:{V}", int(C), int(V)), (C, V), "introduction key")

    # verse numbers as they are in files: with a letter or a bridge
    for V, n in (("5a", 5), ("12b", 12), ("3-4", 3), ("", None)):
        if len(V) > 3 or not V: continue
        with ctx.case(f"verse number {V}"):
            ctx.step(); k = S("GEN", "1", V)
            ctx.equal(k.getBCV(), ("GEN", "1", V), V, "parts")
            if V.isalnum(): ctx.equal(k.getVerseNumberInt(), n, V, "verse as a number")
            if V.isalnum(): ctx.equal(S("GEN", V, "1").getChapterNumberInt(), n, V, "chapter as a number")
    # parts which are no reference are refused
    for parts in itertools.product(("GEN", "XXX", "GE", "GENE", "", "   ", None), ("1", "150", "1234", "", "1.", "1:", " 1", "-1", None), ("1", "176", "1234", "", None), ("", "a", "7", "1234", "12345", "ab", "a1", ".", " ", None)):
        B, C, V, x = parts
        if C is None and V is None and x is None: continue
        good = B in ("GEN",) and C in ("1", "150", "-1") and V in ("1", "176") and x in ("", "a", "7", "1234", None)
        with ctx.case(f"parts {parts}"):
            ctx.step(); ctx.state(parts)
            try: S(*parts); ok = True
            except TypeError: ok = False
            if B == "   ": continue # a place holder: may be refused
            ctx.equal(ok, good, f"parts {parts}", "accepted")

def do_equal(ctx):
    keys = [(B, C, V, x) for B in ("GEN", "EXO") for C in ("1", "11") for V in ("1", "11", "2") for x in ("", "a", "b", "0", "1", "11")]
    objs = [S(*k) for k in keys]
    for (a, ka), (b, kb) in itertools.product(zip(keys, objs), repeat=2):
        with ctx.case(f"{a} {b}"):
            ctx.step(); ctx.state(a, b)
            ctx.equal((ka == kb, ka != kb), (a == b, a != b), f"{a} {b}", "equality")
            if a == b: ctx.equal(hash(ka), hash(kb), f"{a} {b}", "hash")
    with ctx.case("as dictionary keys"):
        d = {k: j for j, k in enumerate(objs)}
        ctx.equal([d.get(S(*k)) for k in keys], list(range(len(keys))), "dict", "look-up of keys")
        ctx.expect(objs[0] != "GEN_1:1" and not objs[0] == None, "dict", "keys are not equal to other things")

def suffixes(ctx, n):
    """all suffix patterns (quick: at most two verses have one)"""
    for p in itertools.product(("", "a", "d") if n <= 5 else ("", "b"), repeat=n):
        if ctx.quick and n > 3 and sum(map(bool, p)) > 2: continue
        yield p

def verses(n, base, gap): return [str(base + gap * j) for j in range(n)]

def same(ctx, k, want, text, cls):
    ctx.equal([bcvs(x) for x in k.getIncludedVerses()], want, text, "included verses")
    ctx.equal([bcvs(y) for x in k for y in x.getIncludedVerses()], want, text, "verses of the parts")
    t = k.getVerseKeyText()
    try: again = [bcvs(x) for x in cls(t).getIncludedVerses()]
    except Exception as e: again = repr(e)
    ctx.equal(again, want, text, f"verses of the printed text {t!r}")
    last = LAST.get(cls)
    ctx.expect(k == cls(text) and not k != cls(text) and (last is None or last[0] == text or (k != last[1] and not k == last[1])) and k != text, text, "keys are equal exactly if they name the same verses")
    LAST[cls] = text, k
LAST = {}

def do_list(ctx, n):
    for C, base, gap in (("1", 1, 2), ("10", 9, 5), ("150", 100, 11), ("9", 1, 1)):
        vs = verses(n, base, gap)
        for p in suffixes(ctx, n):
            text = f"PSA_{C}:" + ",".join(v + sfx(s) for v, s in zip(vs, p))
            with ctx.case(text):
                ctx.step(n); ctx.state(text)
                want = [("PSA", C, v, s, None) for v, s in zip(vs, p)]
                for cls in (M, F):
                    k = cls(text)
                    same(ctx, k, want, text, cls)
                    ctx.equal(k.getVerseKeyText(), text, text, "text")
                    ctx.equal(k.getShortText(), ", ".join(f"PSA {C}:{v}{s}" for v, s in zip(vs, p)), text, "short text")

def do_clist(ctx, n):
    for cs in itertools.product(("1", "2", "99", "150"), repeat=n):
        if any(a == b for a, b in zip(cs, cs[1:])): continue # verses of one chapter are separated by commas
        for vs in itertools.product(("1", "10", "199"), repeat=n):
            for p in itertools.product(("", "a", "d"), repeat=n) if vs == ("10",) * n or not ctx.quick else [("",) * n, ("b",) * n]:
                text = "PSA_" + ";".join(f"{c}:{v}{sfx(s)}" for c, v, s in zip(cs, vs, p))
                with ctx.case(text):
                    ctx.step(n); ctx.state(text)
                    want = [("PSA", c, v, s, None) for c, v, s in zip(cs, vs, p)]
                    for cls in (M, F):
                        same(ctx, cls(text), want, text, cls)

def span(C, a, sa, b, sb):
    if a == b: return [("PSA", C, a, sa, None), ("PSA", C, b, sb, None)]
    return [("PSA", C, a, sa, None)] + [("PSA", C, str(v), "", None) for v in range(int(a) + 1, int(b))] + [("PSA", C, b, sb, None)]

def do_range(ctx):
    for C in CH:
        for a, b in itertools.combinations_with_replacement(["1", "2", "3", "9", "10", "99", "100", "176", "199"], 2):
            for sa, sb in itertools.product(("", "a", "b", "d"), repeat=2):
                if a == b and sa >= sb: continue
                text = f"PSA_{C}:{a}{sfx(sa)}-{b}{sfx(sb)}"
                with ctx.case(text):
                    ctx.step(); ctx.state(text)
                    for cls in (R, F):
                        k = cls(text)
                        same(ctx, k, span(C, a, sa, b, sb), text, cls)
                        ctx.equal(k.getVerseKeyText(), text, text, "text")
                        ctx.equal(k.getShortText(), f"PSA {C}:{a}{sa}-PSA {C}:{b}{sb}", text, "short text")

def do_cranges(ctx):
    for c1, c2 in (("1", "2"), ("9", "10"), ("1", "3"), ("99", "100"), ("149", "150")):
        for a, b in itertools.product(("1", "5", "31", "176"), repeat=2):
            for sa, sb in itertools.product(("", "b"), repeat=2):
                text = f"PSA_{c1}:{a}{sfx(sa)}–{c2}:{b}{sfx(sb)}"
                with ctx.case(text):
                    ctx.step(); ctx.state(text)
                    for cls in (R, F):
                        k = cls(text)
                        got = [bcvs(x) for x in k.getIncludedVerses()]
                        ctx.equal((got[0], got[-1]), (("PSA", c1, a, sa, None), ("PSA", c2, b, sb, None)), text, "ends")
                        pos = [(int(x[1]), int(x[2])) for x in got]
                        ctx.expect(pos == sorted(set(pos)), text, "the verses are in order, each once")
                        ctx.expect(all((c, v) in pos for c in range(int(c1), int(c2) + 1) for v in range(1, 177) if (int(c1), int(a)) <= (c, v) <= (int(c2), int(b))), text, "every verse in between is there")
                        ctx.equal(k.getVerseKeyText(), text, text, "text")

def do_chapters(ctx):
    for C in CH:
        text = f"PSA_{C}"
        with ctx.case(text):
            ctx.step(); ctx.state(text)
            for cls in (R, F):
                k = cls(text)
                ctx.equal(k.getVerseKeyText(), text, text, "text")
                pos = [bcvs(x) for x in k.getIncludedVerses()]
                ctx.expect(pos[:176] == [("PSA", C, str(v), "", None) for v in range(1, 177)] and all(x[1] == C for x in pos), text, "a chapter key contains the verses of the chapter")

def do_mix(ctx, shape):
    n = sum(2 if x == "r" else 1 for x in shape)
    for C, base, gap in (("1", 1, 2), ("119", 8, 3), ("10", 97, 5)):
        vs = verses(n, base, gap)
        for p in suffixes(ctx, n):
            it = iter(zip(vs, p)); parts, want = [], []
            for x in shape:
                v, s = next(it)
                if x == "v": parts.append(v + sfx(s)); want.append(("PSA", C, v, s, None))
                else:
                    w, t = next(it); parts.append(f"{v}{sfx(s)}-{w}{sfx(t)}"); want += span(C, v, s, w, t)
            text = f"PSA_{C}:" + ",".join(parts)
            with ctx.case(text):
                ctx.step(n); ctx.state(text)
                k = F(text)
                same(ctx, k, want, text, F)
                ctx.equal(k.getVerseKeyText(), text, text, "text")

GOOD = ["GEN_1:1", "SA2_19:12!b", "PRO_31:2!101", "MAT_6:1,4", "PSA_1:1;2:2", "JNA_2:1-7", "GEN_1:1–2:3", "GEN_1:1-3,5", "GEN_18"]
def do_bad(ctx):
    """A text is either refused or means what it says: parse what is left with an independent reader of the grammar."""
    import re
    def item(t, C):
        m = re.fullmatch(r"(?:(\d+):)?(\d+)(?:!([a-d]|\d{1,3})?)?", t, re.ASCII)
        return m and (m.group(1) or C, m.group(2), m.group(3) or "")
    texts = set()
    for g in GOOD:
        for j in range(len(g) + 1):
            texts.add(g[:j] + g[j + 1:])
            for ch in "1a!:,;-–_ .zG0":
                texts.add(g[:j] + ch + g[j:]); texts.add(g[:j] + ch + g[j + 1:])
    for t in sorted(texts):
        with ctx.case(t):
            ctx.step(); ctx.state(t)
            for cls in (S, M, R, F):
                try: k = cls(t)
                except (TypeError, AssertionError): continue
                got = list(k.getIncludedVerses())
                m = re.fullmatch(r"(\w{3})_(.*)", t)
                if not ctx.expect(m, t, f"{cls.__name__} accepts a text without book"): continue
                B, rest = m.groups()
                if B not in G.loadedBibleBooksCodes: continue
                if rest.isdigit():
                    ctx.expect(cls in (R, F) and got and all(bcvs(x)[:2] == (B, rest) for x in got), t, "chapter key"); continue
                C, first, ok, named = None, None, True, []
                for part in re.split("[,;]", rest):
                    ends = [item(x, None) for x in re.split("[-–]", part)]
                    if not all(ends) or len(ends) > 2: ok = False; break
                    for c, v, x in ends:
                        C = c or C
                        named.append((B, C, v, x))
                if not ctx.expect(ok and named and named[0][1], t, f"{cls.__name__} accepts a text which is no reference"): continue
                have = [(x.getBBB(), x.getChapterNumStr(), x.getVerseNumStr(), x.getVerseIndex() or x.getVerseSuffix() or "") for x in got]
                ctx.expect(all(x in have for x in named), t, f"{cls.__name__} {t!r}: verses {have[:4]} do not contain those named {named}")
                if not re.search("[-–]", t): ctx.equal(have, named, t, "verses")
