"""F01: numbered backups never lose a version (all histories x all fault points)."""
import itertools, os
from pathlib import Path
import lib

PROP = dict(
    title="Backing up a file before it is rewritten never loses a retained version",
    statement="Whatever sequence of writes and backups (with whatever numbers of backups and extensions) a program performs, after each backup the "
              "file name is free, its last content is under the first backup name and the older retained contents have moved up by exactly one each, "
              "up to the requested number, with no other file touched. If a rename or delete fails or the program dies at any point of a backup, no content other than the one "
              "that was due to be dropped is lost, and asking again still keeps the newest content.",
    over=["histories", "fault_sequences", "crash_points"],
    qtext="every history of at most 6 writes/backups over 1-4 backups and three extensions, and for each backup every point at which a rename or delete can fail, followed by a retry",
    why="No existing test calls the backup routine; a unit test would take one history, while rotation and torn-rotation errors only show after particular sequences of counts and faults.",
    files=["BibleOrgSys/BibleOrgSysGlobals.py"],
    mechanism=[("backupAnyExistingFile", "BibleOrgSys/BibleOrgSysGlobals.py: rename chain file -> .bak -> .bak2 -> ...")],
)
LEVEL = "fault_enumeration"
BOUNDS = "histories: <=5 (quick) / <=7 (thorough) operations over {write, backup n in 1..4 with one extension, plus a second extension}; faults: every rename/remove of the last backup fails once, before or after taking effect, then retry"
RULE = "a case is one history (with at most one injected fault in its last backup) on a real scratch directory; non-trivial = distinct resulting directory contents"
ASSUMPTIONS = ["a single rename or remove of the file system is atomic", "one process works on the files at a time"]


def setup(tier):
    global B
    B = lib.bos()


class Fault(Exception): pass

DESTRUCTIVE = ("rename", "remove", "unlink", "replace", "link")


class Injector:
    """Makes the k-th rename/remove below `root` fail, before ('b') or after ('a') it takes effect."""
    def __init__(self, k, when): self.k, self.when, self.n = k, when, 0
    def __enter__(self):
        self.saved = {name: getattr(os, name) for name in DESTRUCTIVE}
        def wrap(fn):
            def call(*args, **kw):
                self.n += 1
                if self.n == self.k and self.when == "b": raise OSError(5, "injected")
                r = fn(*args, **kw)
                if self.n == self.k and self.when == "a": raise OSError(5, "injected")
                return r
            return call
        for name, fn in self.saved.items(): setattr(os, name, wrap(fn))
        return self
    def __exit__(self, *a):
        for name, fn in self.saved.items(): setattr(os, name, fn)


def norm(ext): return ext if ext.startswith(".") else "." + ext

def name_of(ext, n): return "f.txt" + ("" if n == 0 else norm(ext) + ("" if n == 1 else str(n)))

def model_backup(d, n, ext):
    """d: name -> content. The boring rotation: every version moves up by one slot, the one in slot n is dropped."""
    d = dict(d)
    slots = [d.get(name_of(ext, i)) for i in range(n + 1)]
    lost = None
    for i in range(n, 0, -1):
        if slots[i - 1] is not None:
            if slots[i] is not None and i == n: lost = slots[i]
            d[name_of(ext, i)] = slots[i - 1]
            slots[i] = slots[i - 1]
            d.pop(name_of(ext, i - 1))
            slots[i - 1] = None
    return d, lost

def read(dirp):
    return {e.name: e.read_text() for e in dirp.iterdir()}

OTHERS = {"f.txt.bakx": "other1", "f.tx": "other2", "g.txt.bak": "other3", "f.txt.bak9": "other4"}

def ops(tier):
    o = [("w",)] + [("b", n, "bak") for n in (1, 2, 3, 4)] + [("b", 2, ".old"), ("b", 1, "BAK2")]
    return o

def shards(tier):
    o = range(len(ops(tier)))
    return [(a, b) for a in o for b in o] + [("single",)]

def apply(dirp, model, op, counter, asPath):
    if op[0] == "w":
        counter[0] += 1
        (dirp / "f.txt").write_text(f"version{counter[0]}")
        model = dict(model); model["f.txt"] = f"version{counter[0]}"
        return model, None
    target = dirp / "f.txt" if asPath else str(dirp / "f.txt")
    _, n, ext = op
    if n == 1 and ext == "bak": B.backupAnyExistingFile(target)
    elif ext == "bak": B.backupAnyExistingFile(target, n)
    else: B.backupAnyExistingFile(target, n, extension=ext)
    return model_backup(model, n, ext)

def fresh(ctx):
    d = ctx.scratch("h")
    for k, v in OTHERS.items(): (d / k).write_text(v)
    return d

def run(ctx, shard):
    o = ops(ctx.tier)
    depth = 5 if ctx.quick else 6
    if shard == ("single",):
        for i in range(len(o)): history(ctx, [o[i]])
        return
    prefix = [o[i] for i in shard]
    for length in range(0, depth - 1):
        for tail in itertools.product(o, repeat=length):
            history(ctx, prefix + list(tail))
            if ctx.full: return

def history(ctx, hist):
    # Histories which repeat a backup of nothing or write twice in a row add no state, but are cheap enough to keep
    key = " ".join(op[0] if op[0] == "w" else f"{op[0]}{op[1]}{op[2]}" for op in hist)
    d = fresh(ctx)
    model, counter = dict(OTHERS), [0]
    with ctx.case(key, hist):
        for i, op in enumerate(hist):
            before = model
            model, lost = apply(d, model, op, counter, i % 2)
            ctx.step()
            if op[0] == "b" and "f.txt" not in before:
                # nothing to back up: leaving the older backups alone is as good as moving them up
                if read(d) == before: model = before
        if not ctx.equal(read(d), model, key, "directory after the history", hist): return
        ctx.state(tuple(sorted(model.items()))); ctx.nontrivial.add(lib.h64(sorted(model.items())))
        ctx.sample(key)
    if hist[-1][0] != "b" or before == model or "f.txt" not in before: return
    # Faults in the last backup
    for when in "ba":
        for k in range(1, 12):
            d = fresh(ctx)
            m, counter = dict(OTHERS), [0]
            fkey = f"{key} fault{k}{when}"
            with ctx.case(fkey, hist):
                for i, op in enumerate(hist[:-1]):
                    b4 = m
                    m, _ = apply(d, m, op, counter, i % 2)
                    if op[0] == "b" and "f.txt" not in b4 and read(d) == b4: m = b4
                inj = Injector(k, when)
                try:
                    with inj: apply(d, m, hist[-1], counter, 1)
                except OSError: pass
                if inj.n < k: break
                ctx.step(2)
                now = read(d)
                for content in m.values():
                    if content != lost and content not in now.values():
                        ctx.violation(fkey, f"content {content!r} is lost when the {k}. rename/remove fails ({'before' if when=='b' else 'after'} it took effect): {now}", hist)
                for k2, v in OTHERS.items():
                    if k2 not in now or now[k2] != v: ctx.violation(fkey, f"unrelated file {k2} changed: {now.get(k2)!r}", hist)
                apply(d, m, hist[-1], counter, 0)
                final = read(d)
                newest = m.get("f.txt")
                if newest is not None:
                    ctx.expect(newest in final.values() and "f.txt" not in final, fkey, f"after a retry the newest content is not in a backup: {final}", hist)
                for k2, v in OTHERS.items():
                    if final.get(k2) != v: ctx.violation(fkey, f"unrelated file {k2} changed: {final.get(k2)!r}", hist)
