"""Counting the evaluations of the objective."""
from .opt_common import *

COST = mk("attr", PROBLEM, "cost")


def is_cost(t):
    return t.op == "attr" and t.args[1] == "cost" and t.args[0] is PROBLEM


class Counted:
    """Mixin: self.R, self.rw."""

    sizes = {}

    def length(self, t):
        """Number of elements of a sequence term, or None."""
        if t is None:
            return None
        for s, n in self.sizes.items():
            if t is s:
                return n
        if t.op == "range":
            lo, hi, step = t.args
            return Arith("add", hi, Neg(lo)) if step is ONE else None
        if t.op in ("enumerate", "list_of"):
            return self.length(t.args[0])
        if t.op == "map":
            return self.length(t.args[1])
        if t.op == "zip":
            ns = [self.length(a) for a in t.args]
            if all(n is not None for n in ns) and all(self.R.alg.equal(n, ns[0])[0] is True for n in ns):
                return ns[0]
            return None
        if t.op == "gather":
            return self.length(t.args[1])
        if t.op == "npcall" and t.args[0] == "argsort":
            return self.length(t.args[1][0])
        if t.op == "store":
            return self.length(t.args[0])
        if t.op == "phi" and t in self.R.phis:
            # lists only change their length by append
            return self.length(self.rw(self.R.phis[t]["entry"]))
        if t.op == "slice" and t.args[3] in (NONE, ONE):
            n = self.length(t.args[0])
            lo, hi = t.args[1], t.args[2]
            if n is None:
                return None
            if hi is NONE and lo.op == "const" and (lo is NONE or lo.args[0] >= 0):
                return n if lo is NONE else Arith("add", n, Neg(lo))
            return None
        if t.op == "const" and hasattr(t.args[0], "__len__"):
            return const(len(t.args[0]))
        if t.op in ("list", "tuple"):
            return const(len(t.args))
        if t.op == "sym":
            return mk("len", t)
        return None

    def norm(self, t):
        """Without integer conversions and with known lengths."""
        for _ in range(6):
            m = {}
            for s in subterms(t):
                if s.op == "npcall" and s.args[0] == "int":
                    m[s] = s.args[1][0]
                elif s.op == "len":
                    n = self.length(s.args[0])
                    if n is not None and n is not s:
                        m[s] = n
            if not m:
                break
            t = m.get(t) or subst(t, m)
        return t

    def trip(self, L):
        """Number of passes of a loop without early exit."""
        if not L.data["is_for"] or L.data.get("breaks"):
            return None
        return self.length(self.rw(L.data["iter"])) if L.data["iter"] is not None else None

    def evaluations(self, rep, lab, L, initial, loc):
        norm = self.norm
        R = self.R
        lid = L.data["lid"]
        t = R.attr("cost_evaluations")
        t = self.rw(t) if t is not None else None
        if t is None or t.op != "phi" or t not in R.phis or t.args[0] != lid:
            if t is not None and not contains(t, lambda s: s.op == "phi") and modelled(t):
                rep.bad(f"evaluations@{lab}", f"the reported number {show(t)} does not grow with the iterations", loc)
            else:
                rep.unk(f"evaluations@{lab}", f"reported count {show(t) if t is not None else None}", loc)
            return
        entry, back = norm(self.rw(R.phis[t]["entry"])), norm(self.rw(R.phis[t]["back"]))
        loops = {e.data["lid"]: e for e in R.loops()}
        hp = set(L.data["header"].pc)
        total = t
        n = 0
        num = int(lid[1:]) if isinstance(lid, str) else lid
        for e in R.run_events:
            if e.kind != "call" or not is_cost(e.data["callee"]):
                continue
            if num not in e.loops:
                continue
            n += 1
            k = ONE
            for l in e.loops[e.loops.index(num) + 1:]:
                le = loops.get("L%d" % l)
                tr = self.trip(le) if le is not None else None
                if tr is None:
                    rep.unk(f"evaluations@{lab}", f"trip count of the loop around {e.loc}", loc)
                    return
                inner = set(le.data["header"].pc)
                k = Arith("mul", k, norm(tr))
                # conditions inside the inner loop must be those of its entry
            pc = [(c, p) for c, p in e.pc if (c, p) not in hp and not contains(c, lambda x: x.op == "more")]
            if any(contains(c, lambda x: x.op == "idx") for c, p in pc):
                rep.unk(f"evaluations@{lab}", f"conditional evaluation inside a loop at {e.loc}", loc)
                return
            cond = And(*[self.rw(c) if p else Not(self.rw(c)) for c, p in pc])
            total = Arith("add", total, Ite(cond, k, ZERO))
        rep.count("evaluation sites", n)
        bk = [(c, p) for c, p in L.data["back"].pc if (c, p) not in hp and not contains(c, lambda x: x.op == "more")]
        asm = [self.rw(c) if p else Not(self.rw(c)) for c, p in bk]
        m = {s: FALSE for s in subterms(back) if s.op == "more"}
        v, w = R.alg.equal(subst(back, m) if m else back, norm(total), asm)
        if v is False and not modelled(w[1], w[2]):
            v = None
        rep.verdict(f"evaluations per iteration@{lab}", v, witness(w) if v is not True else f"{n} call sites", loc)
        v, w = R.alg.equal(entry, norm(initial))
        if v is False and not modelled(entry):
            v = None
        rep.verdict(f"initial evaluations@{lab}", v, f"{show(entry)} for {show(initial)}", loc)
