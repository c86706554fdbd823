"""W01: word and figure attribute strings (all attribute lists up to a length, parsed by the real code)."""
import itertools
import lib

PROP = dict(
    title="Word and figure attributes are parsed completely and exactly",
    statement="Parsing the attributes of a word gives exactly the word, the unnamed lemma or every named attribute with its whole value "
              "(quoted values keep their spaces, unquoted ones end at a space, the 'x-' prefix is dropped), whatever their number and order. "
              "Parsing a figure gives its caption and every named attribute under its descriptive name (USFM3) or every positional field (USFM2), unchanged.",
    over=["inputs"],
    qtext="all lists of attributes up to the bound over names, values, quoting styles and separators, with all the captions/words of the alphabet",
    why="No test calls these parsers; they are hand-written state machines whose behaviour depends on which attribute precedes which and how each is quoted.",
    files=["BibleOrgSys/Internals/InternalBibleInternals.py"],
    mechanism=[("parseWordAttributes / parseFigureAttributes", "BibleOrgSys/Internals/InternalBibleInternals.py")],
)
BOUNDS = "words: lists of <=3 (quick) / <=4 (thorough) attributes of 6-10 names x 3-14 values x {quoted, unquoted} x 3 separators; figures: every ordered subset of the 6 USFM3 names (quick: <=4) x value shapes, all USFM2 fields over a 4-text alphabet"
ASSUMPTIONS = ["attribute names are letters and hyphens; quoted values do not contain a double quote; unquoted values contain no white space and are not empty"]

def setup(tier):
    global W, F
    lib.bos()
    from BibleOrgSys.Internals.InternalBibleInternals import parseWordAttributes as W, parseFigureAttributes as F

NAMES = ["lemma", "strong", "x-morph", "x-sem", "x-tw", "srcloc"]
NAMES2 = NAMES + ["x-max-verse", "link-href", "x-x"]
VALUES = ["a", "H0430", "two words", "He,R:Ncmsa", "c=d", ""]
VALUES2 = VALUES + [" a ", "x-y", "a|b", "it's", "rc://*/tw/dict/bible/kt/god", "-", "=", "Ἰησοῦς"]
WORDS = ["word", "two words", "", "don't"]
SEPS = [" ", "  ", "\t"]
BETTER = dict(alt="altDescription", src="sourceFilename", size="relativeSize", loc="locationOrRange", copy="copyrightOrRightsHolder", ref="referenceCV")
POS = ["altDescription", "sourceFilename", "relativeSize", "locationOrRange", "copyrightOrRightsHolder", "caption", "referenceCV"]
FVALUES = ["avnt016.jpg", "col", "1.18", "two words", "(c) x=y"]

def shards(tier):
    n = 3 if tier == "quick" else 4
    return [("w", k, a) for k in range(1, n + 1) for a in (NAMES2 if k <= 2 else NAMES)] + [("lemma",)] + [("f", a) for a in BETTER] + [("f2", k) for k in range(1, 8)] + [("f0",)]

def render(a, v, quoted): return f'{a}="{v}"' if quoted else f"{a}={v}"
def legal(v, quoted): return quoted or (v and " " not in v)

def run(ctx, shard):
    kind = shard[0]
    if kind == "lemma":
        for w in WORDS:
            for l in ("", "a", "two words", "H0430", "b:c"):
                with ctx.case(f"{w}|{l}"):
                    ctx.step(); ctx.state(w, l)
                    ctx.equal(W("work", "GEN", "1", "1", f"{w}|{l}"), {"word": w, "lemma": l}, f"{w}|{l}", "word attributes")
    elif kind == "w":
        k, first = shard[1:]
        vs = VALUES2 if k <= 2 else VALUES[:4] + VALUES[5:] if k == 3 else ["a", "two words", ""]
        names = NAMES2 if k <= 2 else NAMES if k == 3 else NAMES[:5]
        if first not in names: return
        choices = [(v, q) for v in vs for q in (True, False) if legal(v, q)]
        for rest in itertools.permutations([n for n in names if n != first], k - 1):
            attrs = (first,) + rest
            for combo in itertools.product(choices, repeat=k):
                for sep in SEPS if k <= 2 else SEPS[:1]:
                    for w in WORDS if k <= 2 else WORDS[:1]:
                        text = w + "|" + sep.join(render(a, v, q) for a, (v, q) in zip(attrs, combo))
                        want = {"word": w}
                        for a, (v, q) in zip(attrs, combo): want[a[2:] if a.startswith("x-") else a] = v
                        with ctx.case(text):
                            ctx.step(k); ctx.state(k, attrs, combo)
                            got = W("work", "GEN", "1", "1", text, [])
                            ctx.equal(got, want, text, "word attributes")
                if ctx.full: return
        ctx.sample(text)
    elif kind == "f":
        n = 4 if ctx.quick else 6
        for k in range(1, n + 1):
            choices = [(v, q) for v in (FVALUES if k <= 2 else FVALUES[:1] + FVALUES[3:] if k == 3 else FVALUES[3:4]) for q in (True, False) if legal(v, q)]
            if k > 3: choices = [("a b", True), ("c", False)]
            for rest in itertools.permutations([x for x in BETTER if x != shard[1]], k - 1):
                attrs = (shard[1],) + rest
                for combo in itertools.product(choices, repeat=k):
                    for caption in ("At once they left.", "") if k <= 2 else ("At once they left.",):
                        text = caption + "|" + " ".join(render(a, v, q) for a, (v, q) in zip(attrs, combo))
                        want = {"USFM": 3, "caption": caption}
                        for a, (v, q) in zip(attrs, combo): want[BETTER[a]] = v
                        with ctx.case(text):
                            ctx.step(k); ctx.state("f", attrs, combo)
                            ctx.equal(F("work", "GEN", "1", "1", text, []), want, text, "figure attributes")
                if ctx.full: return
    elif kind == "f2":
        n = shard[1]
        for combo in itertools.product(("", "a b", "x.jpg", "1:2") if n <= 5 or not ctx.quick else ("", "a b"), repeat=n):
            text = "|".join(combo)
            with ctx.case(text):
                ctx.step(n); ctx.state("f2", combo)
                ctx.equal(F("work", "GEN", "1", "1", text, []), {"USFM": 2, **dict(zip(POS, combo))}, text, "figure fields")
    elif kind == "f0":
        for text in ("DESC|FILE|SIZE|LOC|COPY|CAP=x|REF", "a|b"):
            with ctx.case(text):
                ctx.step(); ctx.state(text)
                ctx.equal(F("work", "GEN", "1", "1", text, []), {"USFM": 2, **dict(zip(POS, text.split("|")))}, text, "figure fields")
