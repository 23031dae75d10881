"""Comparing builds (B01): find a run whose outcome differs, minimise it."""
import array, os, subprocess


def load(path, runs):
    h = array.array("Q")
    with open(path, "rb") as f:
        h.fromfile(f, runs)
        what = f.read(runs)
    return h, what


class Eval:
    def __init__(self, binary, pid, seed, trace=False):
        self.p = subprocess.Popen([binary, "--prop", pid, "--seed", str(seed), "--eval"] + (["--trace"] if trace else []),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.trace = trace

    def _read(self):
        w = self.p.stdout.readline().split()
        t = []
        if self.trace:
            for line in self.p.stdout:
                if line == ".\n":
                    break
                t.append(line)
        return w[0], w[1], [int(x) for x in w[3:]], t

    def run(self, n):
        self.p.stdin.write("run %d\n" % n)
        self.p.stdin.flush()
        return self._read()

    def choices(self, c):
        self.p.stdin.write("%d %s\n" % (len(c), " ".join(map(str, c))))
        self.p.stdin.flush()
        return self._read()

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def differ(a, b):
    """Outcomes differ, unless both builds fail."""
    if a[0] != "ok" and b[0] != "ok":
        return False
    return (a[0], a[1]) != (b[0], b[1])


def shrink(ea, eb, c, limit=1200):
    n = [0]

    def bad(x):
        n[0] += 1
        return n[0] <= limit and differ(ea.choices(x), eb.choices(x))

    def trim(x):
        x = list(x)
        while x and x[-1] == 0:
            x.pop()
        return x
    c = trim(c)
    progress = True
    while progress and n[0] < limit:
        progress = False
        size = max(1, len(c) // 2)
        while size >= 1 and n[0] < limit:
            i = len(c) - size
            while i >= 0:
                d = trim(c[:i] + c[i + size:])
                if bad(d):
                    c = d
                    progress = True
                i -= size
            size //= 2
        for i in range(len(c)):
            if i >= len(c) or c[i] == 0:
                continue
            for v in (0, 1, c[i] // 2):
                if v < c[i]:
                    d = trim(c[:i] + [v] + c[i + 1:])
                    if bad(d):
                        c = d
                        progress = True
                        break
    return c


def compare(pid, variants, bins, bdir, rdir, seed, runs):
    """Returns (path of a replay file or None, number of compared pairs)."""
    data = {v: load(os.path.join(bdir, v + ".hashes"), runs) for v in variants}
    ref = variants[0]
    pairs = 0
    worst = None
    for v in variants[1:]:
        h0, w0 = data[ref]
        h1, w1 = data[v]
        for r in range(runs):
            a, b = w0[r], w1[r]
            if a == 0 or b == 0 or a == 2 or b == 2 or (a == 3 and b == 3):
                continue
            pairs += 1
            if a != b or h0[r] != h1[r]:
                if worst is None or r < worst[0]:
                    worst = (r, v)
                break
    if worst is None:
        return None, pairs
    r, v = worst
    ea, eb = Eval(bins[ref], pid, seed), Eval(bins[v], pid, seed)
    a, b = ea.run(r), eb.run(r)
    if not differ(a, b):
        raise RuntimeError("run %d differs between %s and %s in the search but not on repetition" % (r, ref, v))
    choices = shrink(ea, eb, a[2] if len(a[2]) >= len(b[2]) else b[2])
    a, b = ea.choices(choices), eb.choices(choices)
    ea.close()
    eb.close()
    path = os.path.join(rdir, "%s.replay" % pid)
    ta, tb = Eval(bins[ref], pid, seed, True), Eval(bins[v], pid, seed, True)
    xa, xb = ta.choices(choices), tb.choices(choices)
    ta.close()
    tb.close()
    with open(path, "w") as f:
        f.write("# libembedded deterministic-simulation replay\n")
        f.write("property %s\nvariant %s\nother %s\nkind builds-differ\nseed %d\nrun %d\noutcome %s %s\nother-outcome %s %s\n" %
                (pid, ref, v, seed, r, a[0], a[1], b[0], b[1]))
        f.write("choices %d\n" % len(choices))
        for i in range(0, len(choices), 24):
            f.write("  " + " ".join(map(str, choices[i:i + 24])) + "\n")
        f.write("end\n# minimised history, as seen by build %s\n" % ref)
        f.writelines("#   " + x for x in xa[3] if x.strip())
        f.write("# and by build %s\n" % v)
        f.writelines("#   " + x for x in xb[3] if x.strip())
    return path, pairs


def replay(path, meta, bins):
    c = []
    with open(path) as f:
        on = False
        for line in f:
            if line.startswith("choices "):
                on = True
            elif line.startswith("end"):
                break
            elif on:
                c += [int(x) for x in line.split()]
    seed = int(meta["seed"])
    out = []
    for v in (meta["variant"], meta["other"]):
        e = Eval(bins[v], meta["property"], seed, True)
        out.append(e.choices(c))
        e.close()
        print("build %s: %s %s" % (v, out[-1][0], out[-1][1]))
        print("".join("  " + x for x in out[-1][3]), end="")
    if differ(out[0], out[1]):
        exact = [" ".join(x[:2]) for x in out] == [meta["outcome"], meta["other-outcome"]]
        print("REPLAY kind=builds-differ %s" % ("EXACT" if exact else "SAME-KIND"))
        return 1
    print("REPLAY kind=none")
    return 0
