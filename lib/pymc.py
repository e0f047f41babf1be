"""Exhaustive exploration core for the Python checks (same protocol as mc.hpp).

run(m) asks for every choice through m.pick(n) / m.of(list); all choice sequences are enumerated depth first.  m.own()
ends the configuration prefix: prefixes are distributed over the shards by hash."""
import hashlib, json, sys, time, traceback


class Skip(Exception):
    pass


class Violation(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


def fail(cls, fmt, *a):
    raise Violation(cls, fmt % a if a else fmt)


class MC:
    def __init__(self):
        self.cur, self.lim, self.pos, self.desc = [], [], 0, ""
        self.executions = self.transitions = self.cases = self.violations = 0
        self.states, self.counters, self.samples = set(), {}, []
        self.thorough, self.replay, self.shard, self.nshards = False, None, 0, 1

    def pick(self, n):
        if n <= 0:
            raise Skip()
        if self.pos == len(self.cur):
            self.cur.append(0)
            self.lim.append(n)
        if self.replay is not None:
            self.lim[self.pos] = n
        v = self.cur[self.pos]
        self.pos += 1
        return v

    def of(self, seq):
        return seq[self.pick(len(seq))]

    def own(self):
        if self.replay is None:
            h = int(hashlib.md5(repr(self.cur[: self.pos]).encode()).hexdigest(), 16)
            if h % self.nshards != self.shard:
                raise Skip()

    def state(self, *x):
        self.states.add(hash(x))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n


def main(run):
    a = sys.argv[1:]
    opt = {a[i]: a[i + 1] for i in range(0, len(a) - 1, 2)}
    m = MC()
    m.thorough = opt.get("--tier") == "thorough"
    if "--replay" in opt:
        m.replay = True
        m.cur = [int(x) for x in opt["--replay"].split(".") if x]
        m.lim = [0] * len(m.cur)
        try:
            run(m)
            print("replay: no violation")
        except Skip:
            print("replay: skipped")
        except Violation as v:
            print("VIOLATION-REPLAY %s: %s [%s]" % (v.cls, v.msg, m.desc))
            return 1
        return 0
    m.shard, m.nshards = [int(x) for x in opt.get("--shard", "0/1").split("/")]
    budget, t0 = float(opt.get("--budget", "600")), time.time()
    out = open(opt["--out"], "w") if "--out" in opt else sys.stderr
    seen, complete = {}, True
    while True:
        m.pos = 0
        m.desc = ""
        viol = None
        try:
            run(m)
            m.cases += 1
            if m.cases in (1, 10, 100) and m.desc:
                m.samples.append(m.desc)
        except Skip:
            pass
        except Violation as v:
            viol = (v.cls, v.msg)
        except Exception as e:  # the code under test must not raise for the calls made here
            tb = traceback.extract_tb(e.__traceback__)
            viol = ("raises " + type(e).__name__, "%s: %s (%s)" % (type(e).__name__, e, "; ".join("%s:%d" % (f.name, f.lineno) for f in tb[-2:])))
        if viol:
            m.violations += 1
            seen[viol[0]] = seen.get(viol[0], 0) + 1
            if seen[viol[0]] <= 3:
                out.write(json.dumps({"violation": viol[1], "class": viol[0], "token": ".".join(map(str, m.cur[: m.pos])), "desc": m.desc}) + "\n")
                out.flush()
        del m.cur[m.pos:], m.lim[m.pos:]
        while m.cur and m.cur[-1] + 1 >= m.lim[-1]:
            m.cur.pop()
            m.lim.pop()
        if not m.cur:
            break
        m.cur[-1] += 1
        if time.time() - t0 > budget:
            complete = False
            break
    out.write(json.dumps({"stats": dict(executions=m.executions, transitions=m.transitions, states=len(m.states), cases=m.cases, violations=m.violations,
                                        complete=complete, counters=m.counters, samples=m.samples[:3])}) + "\n")
    out.flush()
    return 0
