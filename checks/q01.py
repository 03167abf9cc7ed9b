"""Q01 -- a task graph delivers every wire by port, however it was composed."""
from copy import copy, deepcopy
from symx import engine as E
from symx.engine import eq, land
from symx.runner import Harness
from qermit import MitTask, TaskGraph
from qermit.taskgraph.mittask import duplicate_wire_task_gen

ASSUMPTIONS = [
    "tasks are modelled as uninterpreted functions of their inputs, one per output port (pure, as documented)",
]


def _task(ctx, label, i, o):
    def method(obj, *args):
        assert len(args) == i
        return tuple(ctx.app(f"{label}.{p}", *args) for p in range(o))
    return MitTask(_label=label, _n_in_wires=i, _n_out_wires=o, _method=method)


def _fun(ctx, label, i, o):
    return lambda xs: [ctx.app(f"{label}.{p}", *xs) for p in range(o)]


class Ref:
    """reference composition: (n_in, n_out, list -> list)"""

    def __init__(self, n_in, n_out, f):
        self.i, self.o, self.f = n_in, n_out, f

    def append(self, t):
        f, g = self.f, t.f
        return Ref(self.i, t.o, lambda xs: g(f(xs)))

    def prepend(self, t):
        f, g = self.f, t.f
        return Ref(t.i, self.o, lambda xs: f(g(xs)))

    def par(self, t):
        f, g, n = self.f, t.f, self.i
        return Ref(self.i + t.i, self.o + t.o, lambda xs: f(xs[:n]) + g(xs[n:]))

    def wires(self, n):
        return self.par(Ref(n, n, lambda xs: list(xs)))


def _nested(ctx, tag, i, shape):
    """a TaskGraph usable as a task (no bare input-output wire), and its reference.
    shape 0: one task i->2; shape 1: two tasks in parallel behind a permuting boundary"""
    g = TaskGraph(_label=tag)
    r = Ref(1, 1, lambda xs: list(xs))
    if shape == 0:
        if i > 1:
            g.add_n_wires(i - 1)
            r = r.wires(i - 1)
        g.append(_task(ctx, tag + "a", i, 2))
        r = r.append(Ref(i, 2, _fun(ctx, tag + "a", i, 2)))
    else:
        # first a one-wire task, then (i-1)-wire one in parallel, then a joint one
        g.append(_task(ctx, tag + "a", 1, 1))
        r = r.append(Ref(1, 1, _fun(ctx, tag + "a", 1, 1)))
        if i > 1:
            g.parallel(_task(ctx, tag + "b", i - 1, 2))
            r = r.par(Ref(i - 1, 2, _fun(ctx, tag + "b", i - 1, 2)))
    return g, r


def _grow(ctx, g, r, k, tag, max_w, nested=True):
    """k symbolic composition steps applied to g and to the reference"""
    for s in range(k):
        op = ctx.choice(f"{tag}op{s}", ["append", "prepend", "parallel", "wires"] + (["par_nested", "app_nested"] if nested else []))
        lab = f"{tag}{s}"
        if op == "append":
            o = ctx.choice(f"{tag}o{s}", [1, 2, max_w])
            g.append(_task(ctx, lab, r.o, o))
            r = r.append(Ref(r.o, o, _fun(ctx, lab, r.o, o)))
        elif op == "prepend":
            i = ctx.choice(f"{tag}i{s}", [1, 2])
            g.prepend(_task(ctx, lab, i, r.i))
            r = r.prepend(Ref(i, r.i, _fun(ctx, lab, i, r.i)))
        elif op == "parallel":
            i = ctx.choice(f"{tag}i{s}", [1, 2])
            o = ctx.choice(f"{tag}o{s}", [1, 2])
            g.parallel(_task(ctx, lab, i, o))
            r = r.par(Ref(i, o, _fun(ctx, lab, i, o)))
        elif op == "wires":
            n = ctx.choice(f"{tag}n{s}", [1, 2])
            if n == 1:
                g.add_wire()
            else:
                g.add_n_wires(n)
            r = r.wires(n)
        else:
            sh = ctx.choice(f"{tag}sh{s}", [0, 1])
            if op == "par_nested":
                t, tr = _nested(ctx, lab, 2, sh)
                g.parallel(t)
                r = r.par(tr)
            else:
                t, tr = _nested(ctx, lab, r.o, sh)
                g.append(t)
                r = r.append(tr)
    return g, r


def _inputs(ctx, n):
    return [ctx.token(f"x{j}") for j in range(n)]


def _same(ctx, out, ref, label):
    ctx.check(len(out) == len(ref), label + ": number of outputs")
    ctx.check(eq(list(out), list(ref)), label)


def h_compose(ctx, k, max_w):
    g, r = _grow(ctx, TaskGraph(), Ref(1, 1, lambda xs: list(xs)), k, "t", max_w)
    ctx.check(land(g.n_in_wires == r.i, g.n_out_wires == r.o), "wire counts follow the composition")
    xs = _inputs(ctx, r.i)
    want = r.f(xs)
    out = g.run(xs)
    _same(ctx, out, want, "run delivers every wire by port")
    ctx.cover("ran")
    # a second run with other data is not affected by the first
    ys = _inputs(ctx, r.i)
    _same(ctx, g(ys), r.f(ys), "a second run depends only on its own inputs")


def h_cache(ctx, k, max_w):
    g, r = _grow(ctx, TaskGraph(), Ref(1, 1, lambda xs: list(xs)), k, "t", max_w)
    xs = _inputs(ctx, r.i)
    out = g.run(xs, cache=True)
    _same(ctx, out, r.f(xs), "run with cache delivers every wire by port")
    cache = g.get_cache()
    ctx.check(sorted(cache) == sorted(t._label for t in g.tasks), "the cache holds every task")
    ys = _inputs(ctx, r.i)
    g.run(ys, cache=True)
    # the outputs held by the cache are those of the latest run: the output wires come from them
    flat = [v for _, outs in g.get_cache().values() for v in outs]
    for v in r.f(ys):
        if not any(v is y or (not E.is_sym(v) and v == y) for y in ys):
            ctx.check(E.lor(*[eq(v, w) for w in flat]), "cached outputs belong to the latest run")
            ctx.cover("cached")


def h_nested(ctx, k, max_w):
    """running a graph with nested graphs == running it after decomposition == after copying"""
    g, r = _grow(ctx, TaskGraph(), Ref(1, 1, lambda xs: list(xs)), k, "t", max_w)
    xs = _inputs(ctx, r.i)
    want = r.f(xs)
    c = TaskGraph().from_TaskGraph(g)
    has_nested = any(isinstance(t, TaskGraph) for t in g.tasks)
    g.decompose_TaskGraph_nodes()
    ctx.check(not any(isinstance(t, TaskGraph) for t in g.tasks), "decomposition removes every nested graph")
    _same(ctx, g.run(xs), want, "decomposed graph computes the same outputs")
    _same(ctx, c.run(xs), want, "a copy taken before still computes the same outputs")
    if has_nested:
        ctx.cover("decomposed")


def h_decompose_shared(ctx, shapes):
    """the same nested graph used twice, in series or in parallel; the user's object stays usable"""
    i = ctx.choice("i", [2, 3])
    sh = ctx.choice("shape", shapes)
    t, tr = _nested(ctx, "n", i, sh)
    how = ctx.choice("how", ["series", "parallel"])
    g = TaskGraph()
    r = Ref(1, 1, lambda xs: list(xs))
    g.add_n_wires(i - 1)
    r = r.wires(i - 1)
    g.append(t)
    r = r.append(tr)
    if how == "parallel":
        g.parallel(t)
        r = r.par(tr)
    else:
        ctx.assume(tr.o <= i)
        if tr.o < i:
            g.add_n_wires(i - tr.o)
            r = r.wires(i - tr.o)
        g.append(t)
        r = r.append(tr)
    xs = _inputs(ctx, r.i)
    want = r.f(xs)
    _same(ctx, g.run(xs), want, "nested graph used twice")
    g.decompose_TaskGraph_nodes()
    _same(ctx, g.run(xs), want, "decomposing a graph that holds one nested graph twice")
    ys = _inputs(ctx, i)
    _same(ctx, t.run(ys), tr.f(ys), "the nested graph itself is unchanged by the decomposition")
    ctx.cover(how)


def h_independent(ctx, k, max_w):
    """growing one graph never changes another one: copies, and graphs nested in others"""
    base, r = _grow(ctx, TaskGraph(), Ref(1, 1, lambda xs: list(xs)), 1, "b", max_w, nested=False)
    copy_ = TaskGraph().from_TaskGraph(base)
    host = TaskGraph()
    host.parallel(base)
    rhost = Ref(1, 1, lambda xs: list(xs)).par(r)
    which = ctx.choice("grow", ["base", "copy", "host"])
    if which == "base":
        base, rb = _grow(ctx, base, r, k, "g", max_w, nested=False)
        objs = [(base, rb), (copy_, r), (host, rhost)]
    elif which == "copy":
        copy_, rc = _grow(ctx, copy_, r, k, "g", max_w, nested=False)
        objs = [(base, r), (copy_, rc), (host, rhost)]
    else:
        host, rh = _grow(ctx, host, rhost, k, "g", max_w, nested=False)
        objs = [(base, r), (copy_, r), (host, rh)]
    for n, (g, rr) in zip(("base", "copy", "host"), objs):
        xs = _inputs(ctx, rr.i)
        ctx.check(land(g.n_in_wires == rr.i, g.n_out_wires == rr.o), f"{n} keeps its own wires")
        _same(ctx, g.run(xs), rr.f(xs), f"{n} keeps its own behaviour")
    ctx.cover(which)


def h_same_task(ctx, n):
    """one task object added several times acts as independent tasks"""
    t = _task(ctx, "t", 1, 1)
    g = TaskGraph()
    r = Ref(1, 1, lambda xs: list(xs))
    tr = Ref(1, 1, _fun(ctx, "t", 1, 1))
    for s in range(n):
        op = ctx.choice(f"op{s}", ["append", "prepend", "parallel"])
        if op == "parallel":
            g.parallel(t)
            r = r.par(tr)
        elif r.o == 1 and op == "append":
            g.append(t)
            r = r.append(tr)
        elif r.i == 1 and op == "prepend":
            g.prepend(t)
            r = r.prepend(tr)
        else:
            raise E.PathAbort()
    xs = _inputs(ctx, r.i)
    _same(ctx, g.run(xs), r.f(xs), "a task added repeatedly acts as independent tasks")
    ctx.cover("ran")


def h_duplicate(ctx, max_in, max_dup):
    i = ctx.int("i", 1, max_in)
    d = ctx.int("d", 1, max_dup)
    t = duplicate_wire_task_gen(i, d)
    i, d = int(i), int(d)
    g = TaskGraph()
    if i > 1:
        g.add_n_wires(i - 1)
    g.append(t)
    xs = _inputs(ctx, i)
    out = g.run(xs)
    ctx.check(land(g.n_out_wires == i * d, len(out) == i * d), "duplication yields in_wires*duplicates wires")
    ctx.check(eq(list(out), xs * d), "duplicate c of wire j is wire j")
    # wrong number of wires is refused
    bad = False
    try:
        t(xs + xs[:1])
    except ValueError:
        bad = True
    ctx.check(bad, "a wrong number of wires is refused")
    ctx.cover("dup")


def h_characterisation(ctx, k):
    """characterisation given to run reaches every task; what a task records reaches the later ones and the graph"""
    seen = []
    vals = [ctx.token(f"c{j}") for j in range(k + 1)]

    def mk(j):
        def method(obj, x):
            seen.append((j, dict(obj.characterisation)))
            obj.characterisation[f"from{j}"] = vals[j]
            return (x,)
        return MitTask(_label=f"T{j}", _n_in_wires=1, _n_out_wires=1, _method=method)

    g = TaskGraph()
    order = []
    for j in range(k):
        if ctx.choice(f"end{j}", [0, 1]):
            g.append(mk(j))
            order.append(j)
        else:
            g.prepend(mk(j))
            order.insert(0, j)
    g.run([ctx.token("x")], characterisation={"user": vals[k]})
    ctx.check([j for j, _ in seen] == order, "tasks run in wire order")
    done = []
    for j, ch in seen:
        ctx.check("user" in ch and bool(eq(ch["user"], vals[k])), "run's characterisation reaches every task")
        for d in done:
            ctx.check(f"from{d}" in ch and bool(eq(ch[f"from{d}"], vals[d])), "what earlier tasks recorded reaches later tasks")
        done.append(j)
    fin = g.get_characterisation()
    for j in range(k):
        ctx.check(f"from{j}" in fin and bool(eq(fin[f"from{j}"], vals[j])), "the graph reports what its tasks recorded")
    fresh = TaskGraph()
    ctx.check(len(fresh.get_characterisation()) == 0, "a new graph starts without characterisation")
    ctx.cover("ran")


def h_separate(ctx, ways, steps):
    """running one graph never shows in another one that was made from it, or from the same tasks"""
    seen = []
    recorded = ctx.token("r")

    def method(obj, x):
        seen.append(dict(obj.characterisation))
        obj.characterisation["record"] = recorded
        return (x,)

    t = MitTask(_label="T", _n_in_wires=1, _n_out_wires=1, _method=method)
    base = TaskGraph()
    base.append(t)
    know = {"base": {}, "other": {}}
    way = ctx.choice("way", ways)
    when = ctx.choice("when", list(range(steps)))
    other = None
    for k in range(steps):
        if k == when:
            if way == "copy":
                other = copy(base)
            elif way == "deepcopy":
                other = deepcopy(base)
            elif way == "from":
                other = TaskGraph().from_TaskGraph(base)
            elif way == "same task":
                other = TaskGraph()
                other.append(t)
            else:
                other = TaskGraph()
                if way == "parallel":
                    other.add_wire()
                    other.parallel(base)
                else:
                    getattr(other, way)(base)
            if way != "same task":
                know["other"] = dict(know["base"])
        who = ctx.choice(f"run{k}", ["base", "other"])
        if other is None and who == "other":
            raise E.PathAbort()
        g = base if who == "base" else other
        val = ctx.token(f"u{k}")
        known = know[who]
        known[f"user{k}"] = val
        del seen[:]
        ins = [ctx.token(f"x{k}_{i}") for i in range(g.n_in_wires)]
        out = g.run(ins, characterisation={f"user{k}": val})
        ctx.check(len(out) == len(ins) and bool(eq(list(out), ins)), "results are those of this run")
        ctx.check(len(seen) == 1, "the task is run once")
        for ch in seen:
            ctx.check(f"user{k}" in ch, "run's characterisation reaches the task")
            ctx.check(set(ch) <= set(known), "nothing but what was given to, or recorded in, this graph reaches its tasks")
            ctx.check(land(True, *(eq(v, known[n]) for n, v in ch.items() if n in known)), "with the values of this graph")
        known["record"] = recorded
        ctx.check("record" in g.get_characterisation(), "the graph reports what its task recorded")
        for n, h in (("base", base), ("other", other)):
            if h is not None:
                ctx.check(set(h.get_characterisation()) <= set(know[n]), "no graph reports what was recorded in another")
    ctx.check(not t.characterisation, "the task object given is left as it was")
    ctx.cover(way)


def h_again(ctx, k, max_w):
    """each run is of the data given to it; too few wires are never made up for with those of an earlier run"""
    g, r = _grow(ctx, TaskGraph(), Ref(1, 1, lambda xs: list(xs)), k, "s", max_w, nested=False)
    first = _inputs(ctx, r.i)
    _same(ctx, g.run(first), r.f(first), "the first run")
    second = [ctx.token(f"again{j}") for j in range(r.i)]
    n = ctx.choice("wires", list(range(max(0, r.i - 1), r.i + 1)))
    if n == r.i:
        _same(ctx, g.run(second), r.f(second), "a further run is of its own data")
        ctx.cover("again")
        return
    try:
        out = g.run(second[:n])
    except E.PathAbort:
        raise
    except Exception:
        ctx.check(bool(eq(first[0], first[0])), "refused")
        ctx.cover("too few")
        return
    # wires that are not used by any task need not be refused
    ctx.check(all(x is None or bool(eq(x, y)) for x, y in zip(out, r.f(second))), "data of an earlier run is not used")


B = "composition histories of at most {k} symbolic steps (append/prepend/parallel/add wires/nested graphs), tasks with 1..{w} wires; wire data arbitrary; longer histories and wider tasks are outside"
HARNESSES = [
    Harness("compose", h_compose, B.format(k="3 (thorough 4)", w=3), ["ran"], quick=dict(k=3, max_w=3), thorough=dict(k=4, max_w=3)),
    Harness("cache", h_cache, B.format(k="2 (thorough 3)", w=3), ["cached"], quick=dict(k=2, max_w=3), thorough=dict(k=3, max_w=3)),
    Harness("nested", h_nested, B.format(k="3 (thorough 4)", w=3), ["decomposed"], quick=dict(k=3, max_w=3), thorough=dict(k=4, max_w=2)),
    Harness("decompose_shared", h_decompose_shared, "one nested graph of 2..3 input wires used twice, series or parallel", ["series", "parallel"], quick=dict(shapes=[0, 1])),
    Harness("independent", h_independent, B.format(k="2 (thorough 3)", w=2), ["base", "copy", "host"], quick=dict(k=2, max_w=2), thorough=dict(k=3, max_w=2)),
    Harness("same_task", h_same_task, "one task object added up to 3 (thorough 5) times", ["ran"], quick=dict(n=3), thorough=dict(n=5)),
    Harness("duplicate", h_duplicate, "in_wires <= 4, duplicates <= 4", ["dup"], quick=dict(max_in=4, max_dup=4), thorough=dict(max_in=7, max_dup=7)),
    Harness("separate", h_separate, "3 (thorough 4) runs of a graph and one made from it in between", ["copy", "from", "append", "parallel", "same task"],
            quick=dict(ways=["copy", "deepcopy", "from", "append", "parallel", "same task"], steps=3), thorough=dict(ways=["copy", "deepcopy", "from", "append", "prepend", "parallel", "same task"], steps=4)),
    Harness("again", h_again, B.format(k="2 (thorough 3)", w=2), ["again", "too few"], quick=dict(k=2, max_w=2), thorough=dict(k=3, max_w=2)),
    Harness("characterisation", h_characterisation, "chains of 3 (thorough 5) tasks built from either end", ["ran"], quick=dict(k=3), thorough=dict(k=5)),
]
