"""C13: verbosity and logging never influence the outcome."""
import ast
import os

from ..opt_common import *
from .c12 import closure, loop_ends

RULE = (
    "Each optimizer is executed abstractly with symbolic verbosity and log verbosity.  Obligations: no output of the run (fields of the "
    "result except the log, conditions that end loops, arguments of calls of the problem, manifold and line searcher, conditions of errors) "
    "depends on either level, directly or through loops; no random draw or stateful call happens only at some level; what is reported in the "
    "log does not depend on the printing level; with verbosity 0 no reachable statement prints; the modules optimizers call do not print."
)
FLOOR = 100
LEVELS = {"cfg.verbosity": "verbosity", "cfg.log_verbosity": "log verbosity"}
STATEFUL = {"search", "random_point", "random_tangent_vector"}


def levels(ts, phis):
    return sorted({LEVELS[s.args[0]] for s in closure(ts, phis) if s.op == "sym" and s.args[0] in LEVELS})


def direct_levels(cs):
    return sorted({LEVELS[s.args[0]] for c in cs for s in subterms(c) if s.op == "sym" and s.args[0] in LEVELS})


def run(rep, tier):
    for R in runs():
        rep.count("configurations")
        try:
            free(rep, R)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            rep.unk(f"analysis@{R.label}", "analysis failed: %r" % e)
    for R in runs(extra={"verbosity": 0}, tag=" verbosity=0"):
        silent(rep, R)
    prints(rep)


def printer_call(e):
    """A call of a printing helper whose result is not used."""
    c = e.data["callee"]
    return c.op == "attr" and c.args[1].startswith("print")


def free(rep, R):
    loc = f"{OPTS[R.opt]}:{R.opt}.run"
    phis = R.it.phis
    if not R.attrs:
        rep.unk(f"result@{R.label}", "no result", loc)
        return
    outs = {"result." + k: [t] for k, t in R.attrs.items() if k != "log"}
    evs = R.run_events
    outs["loop ends"] = loop_ends(evs)
    outs["calls"] = [a for e in evs if e.kind == "call" and not printer_call(e) for a in e.data["args"]]
    for k, ts in outs.items():
        l = levels(ts, phis)
        if l:
            rep.bad(f"{k}@{R.label}", "depends on the " + " and ".join(l), loc)
        else:
            rep.count("outputs traced")
            rep.ok(f"{k}@{R.label}", "independent of verbosity and log verbosity", loc)
    if "log" in R.attrs:
        v = levels([R.attrs["log"]], phis)
        if "verbosity" in v:
            rep.bad(f"log@{R.label}", "the log depends on the printing level", loc)
        else:
            rep.ok(f"log@{R.label}", "independent of the printing level", loc)
    n = bad = 0
    for e in evs:
        stateful = e.kind == "random" or (e.kind == "call" and e.data["callee"].op == "attr" and e.data["callee"].args[1] in STATEFUL)
        if not stateful:
            continue
        n += 1
        l = direct_levels(c for c, _ in e.pc)
        if l:
            bad += 1
            what = e.data.get("name") or e.data["callee"].args[1]
            rep.bad(f"draw {what}@{R.label}", f"line {e.node.lineno}: happens only at some {l[0]} levels, which shifts every later draw or search", loc)
    if n and not bad:
        rep.ok(f"draws@{R.label}", f"{n} random draws and stateful calls happen at every level", loc)
    bad = 0
    for what, st, _ in R.r.raises:
        l = direct_levels(c for c, _ in st.pc)
        if l:
            bad += 1
            rep.bad(f"error {what}@{R.label}", f"raised only at some {l[0]} levels", loc)
    if not bad:
        rep.ok(f"errors@{R.label}", f"{len(R.r.raises)} error exits do not depend on a level", loc)


def silent(rep, R):
    loc = f"{OPTS[R.opt]}:{R.opt}.run"
    bad = [e for e in R.run_events if e.kind == "print" or (e.kind == "ext" and ("stdout" in e.data["name"] or "stderr" in e.data["name"]))]
    if bad:
        rep.bad(f"silent@{R.label}", f"line {bad[0].node.lineno}: output is printed at verbosity 0", loc)
    else:
        rep.ok(f"silent@{R.label}", "no reachable print with verbosity 0", loc)


SCOPES = ("pymanopt.manifolds", "pymanopt.core", "pymanopt.numerics", "pymanopt.autodiff", "pymanopt.tools.multi")


def prints(rep):
    """Modules reached through the problem and the manifold do not print."""
    from .. import opt_common as oc

    base = os.path.join(oc.ROOT, "src")
    n = 0
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            m = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
            if not m.startswith(SCOPES):
                continue
            n += 1
            tree = ast.parse(open(p).read())
            main = [s for s in tree.body if isinstance(s, ast.If) and "__name__" in ast.dump(s.test)]
            skip = {id(x) for s in main for x in ast.walk(s)}
            bad = [c for c in ast.walk(tree) if isinstance(c, ast.Call) and id(c) not in skip and (
                (isinstance(c.func, ast.Name) and c.func.id == "print") or ast.unparse(c.func) in ("sys.stdout.write", "sys.stderr.write"))
                and not (isinstance(c.func, ast.Name) and any(k.arg == "file" for k in c.keywords))]
            for c in bad:
                rep.bad(f"prints@{m}", f"line {c.lineno}: prints whatever the verbosity is", f"{m}:{c.lineno}")
            if not bad:
                rep.ok(f"prints@{m}", "no print", m)
    rep.count("modules", n)
