"""Runs one shard of a property's workload. Case i of family f is fully determined by (seed, f, i)."""
import argparse, hashlib, importlib, json, os, re, sys, time, traceback, zlib
import numpy as np


SCALE = dict(quick=10.0, thorough=10.0)      # multiplies the case counts of the families (quick, thorough)
SAN_SCALE = dict(quick=1.0, thorough=1.0)


class Skip(Exception):
    pass


class Mon:
    """The monitor handed to each case: records observations, decides ok/violation."""

    def __init__(self, out):
        self.out = out
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.families = {}
        self.evaluations = 0
        self.family = None
        self.index = None
        self.nviol = {}
        self.desc = None
        self.mc = None

    def violation(self, key, detail):
        k = f"{self.family}:{key}"
        n = self.nviol.get(k, 0)
        self.nviol[k] = n + 1
        if n < 3:
            self.out.write(json.dumps(dict(t="v", family=self.family, index=self.index, key=k,
                                           detail=str(detail)[:4000] + (f" | case: {self.desc}" if self.desc else ""))) + "\n")
            self.out.flush()

    def ok(self, cond, key, detail=""):
        """Oracle verdict. detail may be a callable."""
        self.events["oracle_verdicts"] = self.events.get("oracle_verdicts", 0) + 1
        if not cond:
            self.violation(key, detail() if callable(detail) else detail)
        return bool(cond)

    def close(self, a, b, tol, key, detail="", rel=0.0):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return self.ok(False, key, f"shape {a.shape} != {b.shape} {detail}")
        if a.size == 0:
            return True
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            return self.ok(False, key, f"non-finite: {a.tolist()} vs {b.tolist()} {detail}"[:2000])
        scale = tol + rel * max(1e-300, float(np.max(np.abs(b))))
        e = float(np.max(np.abs(a - b)))
        return self.ok(e <= scale, key, lambda: f"err={e:g} tol={scale:g} got={a.ravel()[:12].tolist()} want={b.ravel()[:12].tolist()} {detail() if callable(detail) else detail}")

    def raises(self, fn, key, detail="", exc=Exception):
        try:
            r = fn()
        except exc as e:
            self.count("errors_raised")
            return self.ok(True, key)
        return self.ok(False, key, f"no error raised, returned {r!r} {detail}"[:1000])

    def count(self, what, n=1):
        self.events[what] = self.events.get(what, 0) + n

    def sig(self, *parts):
        """Declares the (rounded) identity of a non-trivial case."""
        h = hashlib.blake2b(digest_size=8)
        h.update(str(self.family).encode())
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.round(p.astype(float), 9).tobytes())
            else:
                h.update(repr(p).encode())
        self.sigs.add(h.hexdigest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(f"{self.family}#{self.index}: {text}"[:600])

    def skip(self):
        raise Skip()


def poison():
    """Objects made from Python are constructed over garbage instead of zero-filled memory (when the helper is there)"""
    import placo
    try:
        import vfx_alloc
    except ImportError:
        return 0
    return sum(bool(vfx_alloc.poison(v)) for v in list(vars(placo).values()) if isinstance(v, type))


class Memcheck:
    """Turns the reports that valgrind makes during a case into violations"""

    def __init__(self, path):
        import vfx_alloc
        self.errors, self.path = vfx_alloc.errors, path
        if self.errors() < 0:
            raise RuntimeError("not running under valgrind")
        self.seen, self.pos = self.errors(), os.path.getsize(path)

    def poll(self, m, what=""):
        n = self.errors()
        if n == self.seen:
            return
        m.count("memcheck_reports", n - self.seen)
        self.seen = n
        with open(self.path, errors="replace") as f:
            f.seek(self.pos)
            text = f.read()
            self.pos = f.tell()
        text = re.sub(r"^==\d+== ?", "", text, flags=re.M)
        for r in re.split(r"\n\s*\n", text):
            k = re.match(r"\s*(Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|"
                         r"Source and dest|Jump to the invalid|Argument '\w+' of)", r)
            if not k:
                continue
            w = re.search(r"(placo::[\w:]+)", r)
            m.violation(f"memcheck:{k.group(1).replace(' ', '-')}:{w.group(1) if w else what or 'value'}", what + r[:3000])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--journal")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--only")
    ap.add_argument("--san", action="store_true")
    ap.add_argument("--memcheck", help="valgrind's log: the process runs under memcheck")
    ap.add_argument("--seconds", type=float, default=0.0, help="stop after this time")
    ap.add_argument("--mult", type=float, default=1.0)
    a = ap.parse_args()
    shard, nshards = map(int, a.shard.split("/"))
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta.json")) as f:
        meta = json.load(f).get(a.prop) or dict(modules=a.prop[1:].split(","))
    jf = os.open(a.journal, os.O_CREAT | os.O_WRONLY, 0o644)
    poison()
    fams = {}
    for modname in meta["modules"]:
        mod = importlib.import_module("vf.props." + modname)
        for k, v in mod.FAMILIES.items():
            if meta.get("families") and k not in meta["families"]:
                continue
            fams[k] = v
    out = open(a.out, "w")
    m = Mon(out)
    m.san = a.san
    m.tier = a.tier
    plan = []
    scale = meta.get("scale", {}).get(a.tier, 1.0) * (SCALE[a.tier] if not a.san else SAN_SCALE[a.tier]) * a.mult
    for name, (fn, q, th) in fams.items():
        n = max(1, int(round((q if a.tier == "quick" else th) * scale)))
        if a.memcheck:
            n = max(1, int(round(meta["memcheck"][a.tier] * meta["memcheck"].get(name, 1) * a.mult)))
        if a.only:
            f, _, idx = a.only.partition(":")
            if f != name:
                continue
            if idx:
                plan.append((name, fn, int(idx), 0))
                continue
        plan += [(name, fn, i, (i + 0.5) / n) for i in range(n)]
    plan.sort(key=lambda c: c[3])  # families advance together, whatever the time allows
    if not (a.only and ":" in a.only):
        plan = [c for k, c in enumerate(plan) if k % nshards == shard]
    done = set()

    def flush():
        out.write(json.dumps(dict(t="s", evaluations=m.evaluations, sigs=sorted(m.sigs), events=m.events,
                                  families=m.families, samples=m.samples)) + "\n")
        out.flush()
        m.evaluations, m.sigs, m.events, m.families, m.samples = 0, set(), {}, {}, []

    mc = Memcheck(a.memcheck) if a.memcheck else None
    m.mc = mc
    t0 = time.time()
    for pos, (name, fn, i, _) in enumerate(plan):
        if pos < a.start:
            continue
        if a.seconds and time.time() - t0 > a.seconds:
            break
        m.family, m.index, m.desc = name, i, None
        os.pwrite(jf, json.dumps(dict(family=name, index=i, pos=pos)).ljust(200).encode(), 0)
        rng = np.random.default_rng([a.seed, zlib.crc32(name.encode()), i])
        st = m.families.setdefault(name, dict(cases=0, skipped=0))
        st["cases"] += 1
        try:
            with np.errstate(all="ignore"):
                fn(m, rng, i)
            m.evaluations += 1
        except Skip:
            st["skipped"] += 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/vf/" in f.filename), "?")
            m.violation(f"exception:{type(e).__name__}", f"unexpected {type(e).__name__}: {e} at {where}\n"
                        + traceback.format_exc()[-1500:])
            m.evaluations += 1
        if mc:
            m.count("memcheck_cases")
            mc.poll(m)
        if pos % 16 == 15 or mc:
            flush()
    flush()


if __name__ == "__main__":
    main()
