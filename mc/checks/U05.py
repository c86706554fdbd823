"""U05: find and replace in the files of a Bible changes exactly what was confirmed."""
import itertools, os, re
import lib

PROP = dict(
    title="Find and replace changes exactly the confirmed places, and can be undone",
    statement="Replacing in the files of a USFM Bible offers each place where the text (or regular expression) occurs in the chosen books at the chosen word position, in order and with the text before it, after it and as it will be; "
              "only the places which were confirmed (or all further ones after 'all') are changed and nothing else is, 'stop' keeps what was confirmed so far, 'undo' leaves every file as it was, files without a change are not touched, "
              "each changed file is first backed up if so asked, the counts and book lists tell what happened, and the changed books are given from their new text when next loaded. "
              "A failure at any point while the files are saved leaves every file's old or new content readable.",
    over=["inputs", "histories", "fault_sequences"],
    qtext="all decision sequences (yes, no, all, stop, undo at each offer) over two-book Bibles built from short texts, for texts and regular expressions, word modes and options, and each point at which saving can fail",
    why="No test calls it, and it rewrites the user's files; mistakes need particular decision sequences and overlapping places.",
    files=["BibleOrgSys/Formats/USFMBible.py", "BibleOrgSys/Formats/USFM2Bible.py"],
    mechanism=[("findReplaceText", "BibleOrgSys/Formats/USFMBible.py and BibleOrgSys/Formats/USFM2Bible.py")],
)
LEVEL = "fault_enumeration"
BOUNDS = ("files: two books, the first with all texts of <=3 (thorough: partly <=4) pieces out of 7, the second fixed (and a third without a place); 6 texts x 5 word modes x 3 replacements and 8 regular expressions; "
          "every decision sequence; options (book lists, context lengths, backups, encodings, default options) on a fixed Bible; the k-th write, rename or remove of saving fails, for each k")
RULE = "a case is one decision sequence on real files, or one failure point; states are the resulting files"
ASSUMPTIONS = ["line ends are written as the format prescribes (CR LF)", "one process works on the files at a time"]

PIECES = ["a", "b", "aa", " ", "\n\\v 2 ", "á", "."]
FINDS = ["a", "aa", "ab", "b", "á", "a."]
REPLACES = ["", "b", "aab"]
MODES = ["Any", "Whole", "Begins", "EndsWord", "EndsLine"]
REGEX = [("regex:a+", "b"), ("regex:a(?=b)", "xa"), ("regex:(a)(b)", r"\2\1a"), ("Regex:b*", "-"), ("regex:$", "end"), (r"regex:\bá", ""), ("regex:a|b", r"[\g<0>]"), ("regex:a", r"\3")]
SECOND = "\\id EXO\n\\c 1\n\\p\n\\v 1 ab xy aá.\n"
THIRD = "\\id LEV\n\\c 1\n\\p\n\\v 1 xyz\n"

class Fault(Exception): pass

def setup(tier): lib.bos()

def shards(tier):
    return [(kind, f, m, r) for kind in ("three", "two") for f in FINDS for m in MODES for r in REPLACES] + [("regex", i, k) for i in range(len(REGEX)) for k in ("three", "two")] + [("options", k) for k in ("three", "two")] + [("fault", k) for k in ("three", "two")]

def first(pieces): return "\\id GEN\n\\c 1\n\\p\n\\v 1 " + "".join(pieces) + "\n"

def texts(n):
    seen = set()
    for k in range(1, n + 1):
        for p in itertools.product(PIECES, repeat=k):
            s = "".join(p)
            if s not in seen: seen.add(s); yield first(p)

# ---- the model
def occurrence(text, pos, o):
    """The next place at or after pos: (start, end, replacement) or None; replacement None when it is invalid"""
    find, repl = o["findText"], o["replaceText"]
    if find.lower().startswith("regex:"):
        if pos > len(text): return None
        m = re.compile(find[6:]).search(text, pos)
        if not m: return None
        try: return m.start(), m.end(), m.expand(repl)
        except (re.error, IndexError): return m.start(), m.end(), None
    for i in range(pos, len(text) - len(find) + 1):
        if text[i:i + len(find)] != find: continue
        k = i + len(find)
        begins, ends = i == 0 or not text[i - 1].isalpha(), k == len(text) or not text[k].isalpha()
        if dict(Any=True, Whole=begins and ends, Begins=begins, EndsWord=ends, EndsLine=k == len(text) or text[k] == "\n")[o.get("wordMode", "Any")]: return i, k, repl
    return None

def model(files, o, decide):
    """files: [(code, text)] -> (texts afterwards, offers, summary); decide(n) gives the n-th decision"""
    books = o.get("bookList", "ALL")
    new, offers, everything, n = {}, [], False, 0
    r = dict(numFinds=0, numReplaces=0, searchedBookList=[], foundBookList=[], replacedBookList=[], aborted=False)
    if o["findText"].lower().startswith("regex:"): r["hadRegexError"] = False
    ctxlen = o.get("contextLength", 60)
    for code, text in files:
        if books not in (None, "ALL") and code not in books: continue
        r["searchedBookList"].append(code)
        pos, d = 0, None
        while True:
            x = occurrence(text, pos, o)
            if x is None: break
            i, k, repl = x
            if repl is None: r["hadRegexError"] = r["aborted"] = True; return new, offers, r
            r["numFinds"] += 1
            if code not in r["foundBookList"]: r["foundBookList"].append(code)
            d = "A"
            if not everything:
                before, after = text[max(0, i - ctxlen):i], text[k:k + ctxlen]
                offers.append((code, before, text[i:k], after, before + repl + after, r["numReplaces"] > 0))
                d = decide(n); n += 1
                if d is None: return None, offers, None
                if d == "A": everything = True
                if d == "S": r["aborted"] = True; return new, offers, r
                if d == "U":
                    r.update(aborted=True, numReplaces=0, replacedBookList=[])
                    return {}, offers, r
            if d in "YA":
                text = text[:i] + repl + text[k:]
                pos = i + len(repl) + (i == k)
                new[code] = text
                r["numReplaces"] += 1
                if code not in r["replacedBookList"]: r["replacedBookList"].append(code)
            else: pos = i + 1
    return new, offers, r

NAMES = {"GEN": "01-GEN.usfm", "EXO": "02-EXO.usfm", "LEV": "03-LEV.usfm"}

def make(ctx, kind, files, encoding=None, eol="\n"):
    from BibleOrgSys.Formats import USFMBible, USFM2Bible
    d = ctx.scratch("b")
    for code, text in files: (d / NAMES[code]).write_bytes(text.replace("\n", eol).encode(encoding or "utf-8"))
    B = USFMBible.USFMBible(d, givenName="T", encoding=encoding) if kind == "three" else USFM2Bible.USFM2Bible(d, givenName="T", encoding=encoding)
    B.abbreviation = "T"
    B.preload()
    if [f for f, _ in B.maximumPossibleFilenameTuples] != [c for c, _ in files]: raise AssertionError("books not found")
    return B, d

def function(kind):
    from BibleOrgSys.Formats import USFMBible, USFM2Bible
    return (USFMBible if kind == "three" else USFM2Bible).findReplaceText

def perform(ctx, kind, B, d, files, o, path, key, encoding=None, eol="\n", backups=True):
    """One run with the decisions of path; answers False when there are more offers than decisions"""
    want, offers, summary = model(files, o, lambda n: path[n] if n < len(path) else None)
    if want is None: return False
    enc = encoding or "utf-8"
    original = {NAMES[c]: t.replace("\n", eol).encode(enc) for c, t in files}
    with ctx.case(key, data=dict(o=o, path=path)):
        ctx.step(len(path))
        got_offers, given = [], dict(o)
        def confirm(ref, before, found, after, willbe, haveundos):
            got_offers.append((ref, before, found, after, willbe, haveundos))
            return path[len(got_offers) - 1] if len(got_offers) <= len(path) else "S"
        o2, r = function(kind)(B, given, confirm)
        if o.get("contextLength", 60) == 0: got_offers = [(a, b or "", c, e or "", f, g) for a, b, c, e, f, g in got_offers]
        ctx.equal(got_offers, offers, key, "offers")
        ctx.equal({k: r.get(k) for k in summary}, summary, key, "summary")
        disk = {n: (d / n).read_bytes() for n in os.listdir(d)}
        expected = dict(original)
        for code, text in want.items():
            expected[NAMES[code]] = text.replace("\n", "\r\n").encode(enc)
            if backups: expected[NAMES[code] + ".bak"] = original[NAMES[code]]
        ctx.equal(disk, expected, key, "files afterwards")
        ctx.equal([c for c, _ in files if B.bookNeedsReloading.get(c)], [c for c, _ in files if c in want], key, "books to be reloaded")
        ctx.state(tuple(sorted(disk.items())))
        for n in list(disk):
            if disk[n] != original.get(n):
                if n in original: (d / n).write_bytes(original[n])
                else: (d / n).unlink()
        B.bookNeedsReloading.clear()
    return True

def explore(ctx, kind, files, o, key, **kw):
    """All decision sequences: depth first over the tree of answers"""
    B, d = make(ctx, kind, files, kw.get("encoding"), kw.get("eol", "\n"))
    stack = [()]
    while stack:
        path = stack.pop()
        if perform(ctx, kind, B, d, files, o, path, f"{key} {''.join(path)}", **kw): continue
        for x in "UASNY": stack.append(path + (x,))
        if ctx.full: return

def run(ctx, shard):
    k = shard[0]
    if k in ("three", "two"):
        _, find, mode, r = shard
        for text in texts((3 if k == "three" else 2) if ctx.quick else 4 if k == "three" and r == "aab" and find != "a" else 3):
            if find not in text: continue
            explore(ctx, k, [("GEN", text), ("EXO", SECOND), ("LEV", THIRD)], dict(findText=find, replaceText=r, wordMode=mode, findHistoryList=[], replaceHistoryList=[], contextLength=3), f"{k} {text[20:]!r} {find!r}->{r!r} {mode}")
            if ctx.full: return
    elif k == "regex":
        find, r = REGEX[shard[1]]
        for text in texts(2 if ctx.quick else 3):
            short = [("GEN", "".join(text[20:]))] if shard[1] in (3, 4) else [("GEN", text), ("EXO", SECOND)]
            if shard[1] == 3: short = [("GEN", text[20:-1][:3])]
            explore(ctx, shard[2], short, dict(findText=find, replaceText=r, findHistoryList=[], replaceHistoryList=[], contextLength=4), f"{shard[2]} {short[0][1]!r} {find!r}->{r!r}")
            if ctx.full: return
    elif k == "options": options(ctx, shard[1])
    else: faults(ctx, shard[1])

GIVEN = [("GEN", first(["ab", " ", "á", "\n\\v 2 ", "ab"])), ("EXO", SECOND), ("LEV", THIRD)]

def options(ctx, kind):
    for books in ("ALL", None, ["EXO"], ["LEV"], ["GEN", "EXO"], "EXO"):
        for n in (60, 1, 0):
            explore(ctx, kind, GIVEN, dict(findText="ab", replaceText="ba", findHistoryList=[], replaceHistoryList=[], bookList=books, contextLength=n), f"{kind} books {books} context {n}")
    for encoding in (None, "utf-8", "latin-1", "utf-16"):
        for eol in ("\n", "\r\n"):
            for backups in (True, False):
                explore(ctx, kind, GIVEN[:2], dict(findText="á", replaceText="é", findHistoryList=[], replaceHistoryList=[], doBackups=backups), f"{kind} {encoding} {eol!r} backups {backups}", encoding=encoding, eol=eol, backups=backups)
    explore(ctx, kind, GIVEN[:2], dict(findText="ab", replaceText="ba"), f"{kind} default options")
    # histories of several replacements with loading in between
    reps = [("ab", "cd"), ("cd", "ab"), ("á", "ab"), ("zz", "y")]
    for hist in itertools.product(range(len(reps)), repeat=2 if ctx.quick else 3):
        for answers in itertools.product("AY", repeat=1):
            for loaded in (False, True):
                key = f"{kind} history {hist} loaded {loaded}"
                with ctx.case(key):
                    B, d = make(ctx, kind, GIVEN)
                    now = dict(GIVEN)
                    olds = {c: [] for c in now}
                    if loaded: B.loadBooks()
                    finds, repls = [], []
                    for h in hist:
                        ctx.step()
                        f, r = reps[h]
                        o = dict(findText=f, replaceText=r, findHistoryList=list(finds), replaceHistoryList=list(repls))
                        finds = [x for x in finds if x != f] + [f]; repls = [x for x in repls if x != r] + [r]
                        o2, res = function(kind)(B, o, lambda *a: answers[0])
                        ctx.equal((o2["findHistoryList"], o2["replaceHistoryList"]), (finds, repls), key, "history lists")
                        for c in now:
                            t = now[c].replace(f, r)
                            if t != now[c]: olds[c].insert(0, now[c]); now[c] = t
                        for c in now:
                            B.loadBookIfNecessary(c)
                            words = "".join(e.getOriginalText() or "" for e in B.books[c]._processedLines if e.getMarker() in ("v~", "p~"))
                            want = "".join(re.sub(r"^(\\v \d |[^\\].*|\\[^v].*)", lambda m: "" if m.group(0).startswith("\\") else m.group(0), l) for l in now[c].split("\n"))
                            ctx.equal(words, want, key, f"{c} after reloading")
                    for c in now:
                        ctx.equal((d / NAMES[c]).read_text(encoding="utf-8"), now[c], key, f"file of {c}")
                        for i, old in enumerate(olds[c]):
                            p = d / (NAMES[c] + ".bak" + ("" if i == 0 else str(i + 1)))
                            ctx.equal(p.read_text(encoding="utf-8"), old, key, f"backup {i + 1} of {c}")
                    ctx.state(tuple(now.items()))

def faults(ctx, kind):
    """The k-th destructive step while saving fails before or after it took effect: each file's old or new text is still there in full"""
    import builtins
    module = __import__("BibleOrgSys.Formats." + ("USFMBible" if kind == "three" else "USFM2Bible"), fromlist=["x"])
    for when in "ba":
        for k in range(1, 40):
            key = f"{kind} fault {k}{when}"
            B, d = make(ctx, kind, GIVEN)
            count = [0]
            def hit(fn):
                count[0] += 1
                if count[0] == k and when == "b": raise Fault()
                r = fn()
                if count[0] == k and when == "a": raise Fault()
                return r
            real_open, saved = builtins.open, {n: getattr(os, n) for n in ("rename", "remove", "unlink", "replace", "link")}
            class File:
                def __init__(self, f): self.f = f
                def __enter__(self): self.f.__enter__(); return self
                def __exit__(self, *a): return self.f.__exit__(*a)
                def __getattr__(self, n): return getattr(self.f, n)
                def write(self, s):
                    hit(lambda: self.f.write(s[:len(s) // 2]))
                    return hit(lambda: self.f.write(s[len(s) // 2:]))
            def fake_open(file, mode="r", *a, **kw):
                if isinstance(mode, str) and any(c in mode for c in "wax+") and str(file).startswith(str(d)): return File(hit(lambda: real_open(file, mode, *a, **kw)))
                return real_open(file, mode, *a, **kw)
            builtins.open = fake_open
            for n, fn in saved.items(): setattr(os, n, lambda *a, fn=fn, **kw: hit(lambda: fn(*a, **kw)))
            with ctx.case(key):
                try:
                    try: function(kind)(B, dict(findText="ab", replaceText="ba", findHistoryList=[], replaceHistoryList=[]), lambda *a: "A")
                    finally:
                        builtins.open = real_open
                        for n, fn in saved.items(): setattr(os, n, fn)
                except Fault: pass
                ctx.step()
                left = {n: (d / n).read_bytes().decode("utf-8", "replace").replace("\r\n", "\n") for n in os.listdir(d)}
                for c, t in GIVEN:
                    mine = [x for n, x in left.items() if n.startswith(NAMES[c])]
                    ctx.expect(t in mine or t.replace("ab", "ba") in mine, key, f"neither the old nor the new text of {c} is left: {left}")
                ctx.state(tuple(sorted(left.items())))
            builtins.open = real_open
            for n, fn in saved.items(): setattr(os, n, fn)
            if count[0] < k: break
