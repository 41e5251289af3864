"""Python side of the engine: the same command line, case files and protocol as vp.hpp."""
import json, os, signal, struct, sys, time

M64 = (1 << 64) - 1


def splitmix(s):
    s = (s + 0x9e3779b97f4a7c15) & M64
    z = s
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return s, z ^ (z >> 31)


class Failure(Exception):
    pass


class Ctx:
    def __init__(self, st, given, big, out, rank, log):
        self.st, self.given, self.big, self.dir, self.rank, self.log = st, given, big, out, rank, log
        self.ch, self.notes, self.classes, self.nontriv = [], [], {}, False

    def below(self, n):
        if self.given is not None:
            v = self.given[len(self.ch)] if len(self.ch) < len(self.given) else 0
            if v >= n:
                v = n - 1
        else:
            self.st, v = splitmix(self.st)
            v %= n
        self.ch.append(v)
        if self.log:
            self.log.write("%d\n" % v)
            self.log.flush()
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def coin(self, num=1, den=2):
        return self.below(den) >= den - num

    def pick(self, v):
        return v[self.below(len(v))]

    def bulk(self):
        import numpy
        return numpy.random.RandomState(self.below(1 << 32))

    def note(self, k, v):
        self.notes.append("%s=%s" % (k, v))

    def cls(self, k):
        self.classes[k] = self.classes.get(k, 0) + 1

    def fail(self, m):
        raise Failure(m)

    def check(self, ok, m):
        if not ok:
            raise Failure(m)


def main(props, comm=None):
    a = sys.argv[1:]
    o = {"--out": ".", "--seed": "1", "--cases": "100", "--prop": "", "--case": "", "--watchdog": "120", "--maxsec": "1e9", "--first": "0"}
    big = False
    while a:
        k = a.pop(0)
        if k == "--big":
            big = True
        elif k == "--crash-only":
            pass
        elif k in o:
            o[k] = a.pop(0)
        else:
            sys.exit(13)
    rank, size = (comm.Get_rank(), comm.Get_size()) if comm else (0, 1)
    out, wd = o["--out"], int(o["--watchdog"])
    names = [n for n in props if o["--prop"] in ("", n)]
    seed, first, cases, given, single = int(o["--seed"]), int(o["--first"]), int(o["--cases"]), None, bool(o["--case"])
    if single:
        given, idx = [], []
        for line in open(o["--case"]):
            line = line.strip()
            if line.startswith("prop "):
                names = [line[5:]]
            elif line == "big":
                big = True
            elif line.startswith("seed "):
                w = line.split()[1:]
                seed, given = int(w[0]), None
                for x in w[1:]:
                    a, _, b = x.partition("-")
                    idx += range(int(a), int(b or a) + 1)
            elif line[:1].isdigit() and given is not None:
                given.append(int(line))
        if not idx:
            idx = [0]
    else:
        idx = range(first, first + cases)
    if not names or any(n not in props for n in names):
        sys.exit(13)

    def hang(*_):
        open(out + "/hang", "w").close()
        os._exit(12)
    signal.signal(signal.SIGALRM, hang)
    hf = open(out + "/hashes", "wb") if rank == 0 else None
    evals, seen, classes, samples, capped, rc, t0 = 0, set(), {}, [], False, 0, time.monotonic()
    for i in idx:
        name = names[i % len(names)]
        if not single:
            stop = time.monotonic() - t0 > float(o["--maxsec"])
            if size > 1:
                stop = comm.bcast(stop)
            if stop:
                capped = True
                break
            if rank == 0:
                with open(out + "/current", "w") as f:
                    f.write("prop %s\n%sseed %d %d\n" % (name, "big\n" if big else "", seed, i))
        c = Ctx(splitmix((seed * 0x9e3779b97f4a7c15 + i) & M64)[1], given, big, out, rank, open(out + "/choices", "w") if single and rank == 0 else None)
        signal.alarm(wd)
        msg = None
        try:
            props[name](c)
        except Failure as e:
            msg = str(e)
        except BaseException as e:
            import traceback
            msg = "unexpected exception: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        if msg is not None:
            with open(out + "/fail.%d" % rank, "w", errors="replace") as f:
                f.write("%s%s\n%s\n" % ("rank %d: " % rank if size > 1 else "", msg, " ".join(c.notes)))
            rc = 10
            if size > 1:
                os._exit(10)
        if size > 1:
            comm.Barrier()
        signal.alarm(0)
        evals += 1
        if c.nontriv:
            h = hash((name,) + tuple(c.ch)) & M64
            if h not in seen:
                seen.add(h)
                if hf:
                    hf.write(struct.pack("<Q", h))
                if len(samples) < 6:
                    samples.append((name + ": " + " ".join(c.notes))[:900])
        for k, v in c.classes.items():
            classes[name + "/" + k] = classes.get(name + "/" + k, 0) + v
        if rc:
            break
    if hf:
        hf.close()
    if rank == 0:
        json.dump({"evaluations": evals, "nontrivial": len(seen), "capped": capped, "classes": classes, "samples": samples}, open(out + "/stats.json", "w"))
    sys.stdout.flush()
    if rc:
        os._exit(rc)
