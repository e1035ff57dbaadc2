"""C46: progress output describes the run."""
import os
import re

from ..opt_common import *

RULE = (
    "Each optimizer is executed abstractly with verbosity 1, 2 and 3 and what it prints is followed as a value graph (text, formatted values "
    "and the conditions it is printed under).  Obligations: the run ends by printing the stopping reason it reports; with verbosity of two or "
    "more each iteration prints a row whose labelled values are the number of the iteration, the cost and the gradient norm at the current "
    "point, columns under the heading of that name; the acc/REJ and TR+/TR- marks agree with the next point and radius; the Nelder-Mead "
    "step that is named is the one performed under that path condition."
)
FLOOR = 60

LABELS = [
    ("evaluations", r"cost eval\w*$"),
    ("iteration", r"(iterations?|k|iter)$"),
    ("gradient norm", r"(gradient norm|\|grad\||grad\.? ?norm|norm of the gradient)$"),
    ("cost", r"(best cost|cost|f|f\(x\)|best f|fbest)$"),
    ("rho", r"rho$"),
]


def label(text):
    text = text.strip().rstrip(":= ").strip().lower()
    for k, r in LABELS:
        if re.search(r"(^|[\s,;|(])" + r, text) or re.fullmatch(r, text):
            return k
    return None


class Opaque(Exception):
    pass


PADS = {"ljust", "rjust", "center", "strip", "lstrip", "rstrip", "expandtabs", "zfill", "upper", "lower", "title", "capitalize"}
PERCENT = re.compile(r"%(%|[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[a-zA-Z])")


def parts(t):
    """The printed text as a list of strings and value terms."""
    if not isinstance(t, Term):
        return [str(t)]
    if t.op == "const":
        return [str(t.args[0])] if t.args[0] is not None else []
    if t.op == "fstr":
        return [x for a in t.args for x in parts(a)]
    if t.op == "fmt":
        v = t.args[0]
        return parts(v) if textual(v) else [v]
    if t.op == "mcall" and t.args[0] in PADS:
        return parts(t.args[1])
    if t.op == "mcall" and t.args[0] == "join":
        seq = t.args[2][0]
        if seq.op in ("tuple", "list"):
            out = []
            for i, a in enumerate(seq.args):
                out += ([] if i == 0 else parts(t.args[1])) + parts(a)
            return out
        raise Opaque()
    if t.op == "mcall" and t.args[0] == "format":
        return template(t)
    if t.op == "mod" and t.args[0].op == "const" and isinstance(t.args[0].args[0], str):
        vs = list(t.args[1].args) if t.args[1].op == "tuple" else [t.args[1]]
        out, at = [], 0
        s = t.args[0].args[0]
        for m in PERCENT.finditer(s):
            out.append(s[at : m.start()])
            at = m.end()
            if m.group(1) == "%":
                out.append("%")
            elif "*" in m.group(1) or not vs:
                raise Opaque()
            else:
                v = vs.pop(0)
                out += parts(v) if textual(v) else [v]
        if vs:
            raise Opaque()
        return out + [s[at:]]
    if t.op == "add" and any(textual(a) for a in t.args):
        return [x for a in t.args for x in parts(a)]
    if t.op == "mul" and any(a.op == "const" and isinstance(a.args[0], str) for a in t.args):
        return ["   "]
    if t.op == "ext" and t.args[0].split(".")[-1] in ("str", "repr", "format", "ascii") or t.op in ("str", "repr", "format"):
        v = t.args[1][0] if t.op == "ext" else t.args[0]
        return parts(v) if textual(v) else [v]
    return [t]


def template(t):
    """Fields of text.format(...)."""
    import string

    s = t.args[1]
    vs, kw = list(t.args[2]), {str(a): b for a, b in t.args[3]} if len(t.args) > 3 else {}
    show_ = lambda v: parts(v) if textual(v) else [v]
    if s.op != "const" or not isinstance(s.args[0], str):
        # a template put together from pieces
        if len(vs) + len(kw) == 1:
            return show_((vs + list(kw.values()))[0])
        raise Opaque()
    out, n = [], 0
    try:
        fields = list(string.Formatter().parse(s.args[0]))
    except ValueError:
        raise Opaque()
    for text, name, spec, conv in fields:
        out.append(text)
        if name is None:
            continue
        if name == "":
            name, n = str(n), n + 1
        if name.isdigit() and int(name) < len(vs):
            out += show_(vs[int(name)])
        elif name in kw:
            out += show_(kw[name])
        else:
            raise Opaque()
    return out


def textual(t):
    """The value is a text."""
    if not isinstance(t, Term):
        return isinstance(t, str)
    if t.op == "ite":
        return textual(t.args[1]) or textual(t.args[2])
    if t.op == "add":
        return any(textual(a) for a in t.args)
    if t.op == "mod":
        return textual(t.args[0])
    if t.op == "ext":
        return t.args[0].split(".")[-1] in ("str", "repr", "format", "ascii")
    return t.op in ("fstr", "str", "repr", "format") or (t.op == "mcall" and t.args[0] in PADS | {"format", "join", "replace"}) or (t.op == "const" and isinstance(t.args[0], str))


def words(t):
    return {v.args[0].strip() for _, v in leaves(t) if v.op == "const" and isinstance(v.args[0], str)} & {"acc", "REJ", "TR+", "TR-"}


def labelled(ps):
    """(kind, value) for values that follow a label in the same text."""
    out, text = [], ""
    for p in ps:
        if isinstance(p, str):
            text += p
        else:
            k = label(text) if text.rstrip().endswith((":", "=")) else None
            out.append((k, p))
            text = ""
    return out


def unlabelled(ps):
    """Some number follows a text that is no label."""
    text = ""
    for p in ps:
        if isinstance(p, str):
            text += p
        else:
            if not textual(p) and not words(p) and not text.rstrip().endswith((":", "=")):
                return True
            text = ""
    return False


def text_of(t, default):
    if t is None or t.op != "const" or t.args[0] is None:
        return default
    return str(t.args[0])


def columns(ps):
    """The words of a heading: texts without values, split at the padding."""
    return [w for w in re.split(r"\s{2,}|\n|\t", "".join(ps)) if w.strip()]


def run(rep, tier):
    for v in (1, 2, 3):
        for R in runs(extra={"verbosity": v}, tag=" verbosity=%d" % v):
            rep.count("configurations")
            try:
                reason(rep, R)
                if v >= 2:
                    rows(rep, R, v)
            except Exception as e:
                if os.environ.get("SA_DEBUG"):
                    raise
                rep.unk(f"analysis@{R.label}", "analysis failed: %r" % e)


def loc(R, e=None):
    return f"{OPTS[R.opt]}:{R.opt}.run" + (f" line {e.node.lineno}" if e is not None else "")


def prints(R):
    return [e for e in R.run_events if e.kind == "print"]


def reason(rep, R):
    """The stopping reason of the result is printed at the end of the run."""
    key = f"reason@{R.label}"
    want = R.attr("stopping_criterion")
    if want is None:
        rep.unk(key, "no result", loc(R))
        return
    ps = prints(R)
    near = []
    for e in ps:
        for a in (x for y in e.data["args"] for x in within(y)):
            v, w = decide_equal(R, a, want, peel=False) if a is not want else (True, "")
            if v is True:
                late = [c for c, b in e.pc if any(s.op == "sym" and s.args[0] == "cfg.log_verbosity" for s in subterms(c))]
                rep.verdict(key, False if late else True, "printed only at some logging levels" if late else "the reported reason is printed", loc(R, e))
                return
            if any(s.op == "const" and isinstance(s.args[0], str) and "erminated" in s.args[0] for s in subterms(a)):
                near.append((e, a))
    if near:
        rep.unk(key, "a reason is printed whose equality with the reported one is not established: " + show(near[0][1], 4)[:200], loc(R, near[0][0]))
    elif all(plain(a) for e in ps for a in e.data["args"]):
        rep.bad(key, "no print of the stopping reason", loc(R))
    else:
        rep.unk(key, "no print of the stopping reason found", loc(R))


def within(t):
    """A text and the texts it is put together from."""
    yield t
    if t.op in ("fstr", "add"):
        for a in t.args:
            if isinstance(a, Term) and textual(a):
                yield from within(a)
            elif isinstance(a, Term) and a.op == "fmt":
                yield from within(a.args[0])
    elif t.op == "fmt" or (t.op == "mcall" and t.args[0] in PADS):
        yield from within(t.args[0] if t.op == "fmt" else t.args[1])


def plain(t):
    try:
        return all(isinstance(p, str) or p.op not in BADOPS for p in parts(t))
    except Opaque:
        return False


def rows(rep, R, v):
    main = R.main_loop()
    if main is None:
        rep.unk(f"rows@{R.label}", "no main loop", loc(R))
        return
    lid = main.data["lid"]
    head, opaque, loose = None, False, False
    found = {}
    inside = lambda e: "L%s" % e.loops[-1] == lid if e.loops else False
    pending = []
    if any(e.kind == "ext" and ("stdout" in e.data["name"] or "logging" in e.data["name"]) for e in R.run_events):
        opaque = True
    for e in prints(R):
        ps, pending = pending, []
        between = text_of(e.data.get("sep"), " ")
        for i, a in enumerate(e.data["args"]):
            try:
                ps = ps + ([between] if i else []) + parts(a)
            except Opaque:
                opaque = True
        if "\n" not in text_of(e.data.get("end"), "\n"):
            pending = ps + [text_of(e.data.get("end"), "")]
            continue
        vals = [p for p in ps if not isinstance(p, str)]
        if vals and all(textual(x) for x in vals) and not any(words(x) for x in vals):
            continue
        if not any("L%s" % n == lid for n in e.loops):
            if not vals:
                c = columns(ps)
                if len(c) > 1 and any(label(x) for x in c):
                    head = c
            elif not e.loops:
                start(rep, R, e, labelled(ps))
            continue
        if not inside(e):
            continue
        named = labelled(ps)
        if vals and all(k is None for k, _ in named) and head is not None and not "".join(p for p in ps if isinstance(p, str)).strip():
            if len(vals) < 2:
                continue
            if len(vals) != len(head):
                rep.bad(f"columns@{R.label}", f"{len(vals)} values under {len(head)} headings", loc(R, e))
                continue
            named = [(label(h), x) for h, x in zip(head, vals)]
        if not loose and any(k is None for k, _ in named):
            loose = unlabelled(ps)
        for k, x in named:
            if textual(x) or contains(x, textual):
                opaque = opaque or not words(x)
            elif k:
                found.setdefault(k, []).append((e, x))
        marks(rep, R, e, ps, vals, lid)
        if not vals:
            steps(rep, R, e, "".join(ps), lid)
    want = ["cost"]
    if R.opt in ("SteepestDescent", "ConjugateGradient", "TrustRegions"):
        want = ["iteration", "cost", "gradient norm"]
    for k in want:
        if k in found:
            continue
        if opaque or loose:
            rep.unk(f"{k}@{R.label}", "not found among the values printed in an iteration", loc(R))
        else:
            rep.bad(f"{k}@{R.label}", f"an iteration does not print the {k}", loc(R))
    Q = None
    for e, x in found.get("cost", []):
        Q = cost(rep, R, e, x, lid)
    for e, x in found.get("gradient norm", []):
        if Q is None:
            rep.unk(f"gradient norm@{R.label}", "the point of the printed cost is not known", loc(R, e))
            continue
        rep.verdict(f"gradient norm@{R.label}", *decide_equal(R, x, norm_of(Q, grad_of(Q))), loc(R, e))
    for e, x in found.get("iteration", []):
        number(rep, R, e, x, lid)
    for e, x in found.get("rho", []):
        fs = [f for f in candidates(R, lid) if f.op == "phi"]
        c = R.phis[fs[0]]["back"].args[0] if fs and R.phis[fs[0]]["back"].op == "ite" else None
        if c is None:
            rep.unk(f"rho@{R.label}", "the acceptance condition is not known", loc(R, e))
        else:
            used = contains(c, lambda s: s.op in ("lt", "le", "gt", "ge") and any(a is x for a in s.args))
            rep.verdict(f"rho@{R.label}", True if used else (False if modelled(x) and decidable(x) else None), "the ratio steps are accepted by" if used else f"{show(x, 3)[:160]} is not the ratio steps are accepted by", loc(R, e))
    for e, x in found.get("evaluations", []):
        want = R.attr("cost_evaluations")
        if want is not None:
            rep.verdict(f"evaluations@{R.label}", *decide_equal(R, x, want), loc(R, e))
    every(rep, R, found, lid)


def start(rep, R, e, named):
    """What is printed before the first iteration belongs to the initial point."""
    Q = next((i["entry"] for f, i in R.phis.items() if f in candidates(R, R.main_loop().data["lid"])), None)
    if Q is None:
        return
    for k, x in named:
        if k == "cost":
            rep.verdict(f"initial cost@{R.label}", *decide_equal(R, x, cost_of(Q)), loc(R, e))
        elif k == "gradient norm":
            rep.verdict(f"initial gradient norm@{R.label}", *decide_equal(R, x, norm_of(Q, grad_of(Q))), loc(R, e))


def candidates(R, lid):
    """The current point before and after an iteration."""
    p = R.attr("point")
    out = [p]
    ends = {v for _, v in leaves(p)} | {v for _, v in leaves(p.args[0])} if p.op in ("select", "getitem") else {v for _, v in leaves(p)}
    for f, i in R.phis.items():
        if f.args[0] == lid and (f in ends or i["back"] is p):
            out += [f, i["back"]]
    return list(dict.fromkeys(out))


def cost(rep, R, e, x, lid):
    refuted = 0
    cs = candidates(R, lid)
    direct = [q for q in cs if same(x, cost_of(q))]
    for q in direct + [q for q in cs if q not in direct]:
        v, w = decide_equal(R, x, cost_of(q))
        if v is True:
            rep.ok(f"cost@{R.label}", "the cost of the current point " + show(q, 2), loc(R, e))
            return q
        refuted += v is False
    if outdated(R, x, lid):
        rep.bad(f"cost@{R.label}", f"{show(x, 4)} is printed although the last step may have found a better point", loc(R, e))
        return None
    rep.verdict(f"cost@{R.label}", False if refuted == len(cs) else None, f"{show(x, 4)} is printed as the cost", loc(R, e))
    return None


def outdated(R, x, lid):
    """The first entry of a list in which a smaller last entry was stored."""
    first = lambda z: z.op in ("select", "getitem") and z.args[1] is ZERO and z.args[0].op == "npcall" and z.args[0].args[0] == "argsort"
    fs = [f for f in R.phis if f.args[0] == lid and any(s.op in ("select", "getitem") and s.args[0] is f and s.args[1] is ZERO for s in subterms(x))]
    for f in fs:
        for path, n in leaves(R.phis[f]["back"]):
            if n.op == "store" and n.args[1] is const(-1):
                for c, b in path:
                    for q in (c,) + (tuple(c.args) if c.op == "and" and b else ()):
                        if b and q.op in ("lt", "less") and contains(q.args[1], first):
                            return True
    return False


def number(rep, R, e, x, lid):
    """The n-th iteration prints n."""
    key = f"iteration@{R.label}"
    its = R.attr("iterations")
    if its is not None and R.alg.equal(x, its)[0] is True:
        rep.ok(key, "the number of iterations reported if the run ended here", loc(R, e))
        return
    cs = [s for s in subterms(x) if s.op == "phi" and s.args[0] == lid and s in R.phis]
    if len(cs) == 1:
        f, i = cs[0], R.phis[cs[0]]
        if R.alg.equal(i["back"], Arith("add", f, ONE))[0] is True and i["entry"].op == "const":
            n0 = subst(x, {f: i["entry"]})
            step = R.alg.equal(subst(x, {f: Arith("add", f, ONE)}), Arith("add", x, ONE))[0]
            v = R.alg.equal(n0, ONE)[0]
            z = R.alg.equal(n0, ZERO)[0]
            if step is True and (v is True or z is True):
                rep.ok(key, "counts the iterations", loc(R, e))
                return
            if step is False or (v is False and z is False):
                rep.bad(key, f"{show(x, 4)} is printed as the number of the iteration", loc(R, e))
                return
    rep.verdict(key, False if modelled(x) and decidable(x) and not cs else None, f"{show(x, 4)} is printed as the number of the iteration", loc(R, e))


def every(rep, R, found, lid):
    """The row is printed in every iteration."""
    for k in ("cost",):
        for e, x in found.get(k, []):
            dep = []
            for c, b in e.pc:
                ph = [s for s in subterms(c) if s.op in ("phi", "idx") and s.args and s.args[0] == lid]
                if ph:
                    dep.append(c)
            stop = [c for c in dep if not inner_exit(c) and not other_loop(c, lid)]
            if not stop:
                rep.ok(f"every iteration@{R.label}", "printed unconditionally", loc(R, e))
            elif any(contains(c, lambda s: s.op == "mod") for c in stop):
                rep.bad(f"every iteration@{R.label}", "printed only if " + show(stop[0], 4)[:200], loc(R, e))
            else:
                rep.unk(f"every iteration@{R.label}", "printed if " + show(stop[0], 4)[:200], loc(R, e))


def inner_exit(c):
    """The condition that an inner loop ended."""
    return contains(c, lambda s: s.op == "more")


def other_loop(c, lid):
    return contains(c, lambda s: s.op == "phi" and s.args[0] != lid)


def leaves(t, path=()):
    if t.op == "ite":
        c = t.args[0]
        known = dict(path)
        if c in known:
            yield from leaves(t.args[1] if known[c] else t.args[2], path)
            return
        yield from leaves(t.args[1], path + ((c, True),))
        yield from leaves(t.args[2], path + ((c, False),))
    else:
        yield path, t


def under(t, path):
    """The value of t on a path."""
    known = dict(path)
    while t.op == "ite" and t.args[0] in known:
        t = t.args[1] if known[t.args[0]] else t.args[2]
    return t


def marks(rep, R, e, ps, vals, lid):
    """acc/REJ against the next point, TR+/TR- against the next radius."""
    for w in ("acc", "REJ", "TR+", "TR-"):
        if any(k for k, _ in labelled(ps)) and any(isinstance(p, str) and re.search(r"(^|\s)%s(\s|$)" % re.escape(w), p) for p in ps):
            rep.bad(f"constant mark@{R.label}", f"{w!r} is printed whatever the step was", loc(R, e))
    for x in vals:
        if x.op != "ite":
            continue
        ls = list(leaves(x))
        if not all(v.op == "const" and isinstance(v.args[0], str) for _, v in ls):
            continue
        words = {v.args[0].strip() for _, v in ls}
        if words & {"acc", "REJ"}:
            f = [s for s in candidates(R, lid) if s.op == "phi"]
            if not f:
                rep.unk(f"acceptance mark@{R.label}", "no point", loc(R, e))
                continue
            verdict(rep, f"acceptance mark@{R.label}", R, e, ls, f[0], {"acc": lambda n: n is not f[0], "REJ": lambda n: n is f[0]})
        elif words & {"TR+", "TR-"}:
            f = [s for s in R.phis if s.args[0] == lid and R.phis[s]["entry"].op not in ("const", "undef") and R.phis[s]["back"].op == "ite" and R.phis[s]["back"].args[0] is x.args[0] and any(v is s for _, v in leaves(R.phis[s]["back"]))]
            if not f:
                rep.unk(f"radius mark@{R.label}", "no radius", loc(R, e))
                continue
            f = f[0]
            up = lambda n: contains(n, lambda s: s.op == "npcall" and str(s.args[0]).startswith("min")) or contains(n, lambda s: s.op == "sym" and s.args[0].endswith("Delta_bar"))
            verdict(rep, f"radius mark@{R.label}", R, e, ls, f, {"TR+": lambda n: n is not f and up(n), "TR-": lambda n: n is not f and not up(n), "": lambda n: n is f})


def verdict(rep, key, R, e, ls, f, table):
    unclear = ""
    for path, w in ls:
        n = under(R.phis[f]["back"], path)
        ok = table.get(w.args[0].strip())
        if n.op == "ite":
            unclear = f"on the path of {w.args[0]!r} the next value is {show(n, 3)}"
            continue
        if ok is None or not ok(n):
            rep.bad(key, f"{w.args[0]!r} is printed when the next value is {show(n, 3)[:160]}", loc(R, e))
            return
    if unclear:
        rep.unk(key, unclear[:300], loc(R, e))
    else:
        rep.ok(key, f"agrees with the step on {len(ls)} paths", loc(R, e))


STEPS = [
    ("reflection", r"reflection"),
    ("expansion", r"^expansion"),
    ("outside contraction", r"outside contraction"),
    ("inside contraction", r"inside contraction"),
    ("shrinkage", r"shrink"),
]


def steps(rep, R, e, text, lid):
    if R.opt != "NelderMead":
        return
    t = text.strip().lower()
    name = next((k for k, r in STEPS if re.search(r, t)), None)
    if name is None:
        return
    key = f"step {text.strip()}@{R.label}"
    f = None
    for s in R.phis:
        if s.args[0] == lid and R.attr("point").op in ("select", "getitem", "gather") and R.attr("point").args[0] is s:
            f = s
    if f is None:
        rep.unk(key, "no simplex", loc(R, e))
        return
    known = {}
    for c, b in e.pc:
        known[c] = b
        if c.op == "and" and b:
            known.update({a: True for a in c.args})
        if c.op == "or" and not b:
            known.update({a: False for a in c.args})
    n = R.phis[f]["back"]
    n = under(subst(n, {c: (TRUE if b else FALSE) for c, b in known.items()}), ())
    if n.op == "ite" and inner_exit(n.args[0]):
        # the value when the inner loop ended
        n = n.args[2]
    did = performed(n)
    if did is None:
        rep.unk(key, "the step is " + show(n, 4)[:200], loc(R, e))
    else:
        rep.verdict(key, did == name, f"the step performed is a {did}", loc(R, e))


def performed(n):
    if n.op == "ite":
        return None
    if n.op == "phi":
        return "shrinkage"
    if n.op != "store":
        return None
    v = n.args[-1]
    ps = {s.args[0].split(".")[-1] for s in subterms(v) if s.op == "sym" and s.args[0].startswith("cfg.")}
    ps = {p.lstrip("_") for p in ps} & {"reflection", "expansion", "contraction"}
    if len(ps) != 1:
        return None
    p = ps.pop()
    if p != "contraction":
        return p
    s = sym("cfg.contraction")
    negative = contains(v, lambda q: q.op == "neg" and q.args[0] is s) or contains(v, lambda q: q.op == "mul" and any(a.op == "neg" and contains(a, lambda z: z is s) for a in q.args)) or contains(v, lambda q: q.op == "neg" and contains(q, lambda z: z is s))
    return ("outside" if negative else "inside") + " contraction"
