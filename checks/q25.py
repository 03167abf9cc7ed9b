"""Q25 -- drawings of task graphs show every task and every wire.

The drawing is read back and evaluated: its boxes are taken as functions (one per label),
its lines as the data they get, and what comes out at "Outputs" must be what running the
graph returns, for every input and every choice of functions."""
import html
from collections import Counter
from html.parser import HTMLParser
from symx import engine as E
from symx.engine import eq, land
from symx.runner import Harness
from qermit import MitTask, TaskGraph, MitRes, MitEx

ASSUMPTIONS = ["a drawing is its DOT source: boxes with HTML labels, the ports above the name being inputs, those below outputs, in the order shown",
               "tasks are uninterpreted functions of their inputs, one per label and output"]


# --- reading DOT ----------------------------------------------------------------------
def _tokens(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c.isspace():
            i += 1
        elif c == '"':
            j, t = i + 1, ""
            while s[j] != '"':
                if s[j] == "\\" and s[j + 1] == '"':
                    j += 1
                t += s[j]
                j += 1
            out.append(("id", t))
            i = j + 1
        elif c == "<":
            d, j = 0, i
            while True:
                d += {"<": 1, ">": -1}.get(s[j], 0)
                j += 1
                if d == 0:
                    break
            out.append(("html", s[i + 1:j - 1]))
            i = j
        elif s.startswith("->", i):
            out.append(("->", "->"))
            i += 2
        elif c in "[]{}=,;:":
            out.append((c, c))
            i += 1
        elif s.startswith("//", i) or c == "#":
            i = s.index("\n", i)
        else:
            j = i
            while j < len(s) and not s[j].isspace() and s[j] not in '[]{}=,;:"<' and not s.startswith("->", j):
                j += 1
            out.append(("id", s[i:j]))
            i = j
    return out


class _Label(HTMLParser):
    def __init__(self, text):
        super().__init__()
        self.items, self.text = [], ""
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self._flush()
        for k, v in attrs:
            if k.lower() == "port":
                self.items.append(("port", v))

    def handle_endtag(self, tag):
        self._flush()

    def _flush(self):
        if self.text.strip():
            self.items.append(("text", self.text.strip()))
        self.text = ""

    def handle_data(self, d):
        self.text += d


def _wellformed(text):
    """the text of an HTML-like label is valid XML"""
    import xml.etree.ElementTree as ET
    try:
        ET.fromstring(f"<x>{text}</x>")
        return True
    except ET.ParseError:
        return False


def read(src):
    """boxes {id: html}, lines [(id, port, id, port)]"""
    t = _tokens(src)
    assert t[0][1] == "digraph"
    i = next(k for k, x in enumerate(t) if x[0] == "{") + 1
    boxes, lines = {}, []

    def attrs(i):
        a = {}
        while i < len(t) and t[i][0] == "[":
            i += 1
            while t[i][0] != "]":
                if t[i][0] in ",;":
                    i += 1
                    continue
                k = t[i][1]
                assert t[i + 1][0] == "="
                a[k] = t[i + 2]
                i += 3
            i += 1
        return a, i

    def end(i):
        e = [t[i][1]]
        i += 1
        while t[i][0] == ":":
            e.append(t[i + 1][1])
            i += 2
        return e, i
    while t[i][0] != "}":
        if t[i][0] == ";":
            i += 1
            continue
        if t[i + 1][0] == "=":
            i += 3
            continue
        if t[i][1] in ("graph", "node", "edge") and t[i + 1][0] == "[":
            _, i = attrs(i + 1)
            continue
        ends = []
        e, i = end(i)
        ends.append(e)
        while t[i][0] == "->":
            e, i = end(i + 1)
            ends.append(e)
        a, i = attrs(i)
        if len(ends) == 1:
            boxes.setdefault(ends[0][0], []).append(a.get("label", ("none", "")))
        for u, v in zip(ends, ends[1:]):
            lines.append((u, v))
    return boxes, lines


class Picture:
    def __init__(self, ctx, src):
        boxes, lines = read(src)
        self.ok = all(len(b) == 1 for b in boxes.values()) and all(u[0] in boxes and v[0] in boxes for u, v in lines)
        self.box, self.valid = {}, True
        for k, b in boxes.items():
            kind, text = b[-1]
            self.valid = self.valid and kind == "html" and _wellformed(text)
            it = _Label(text).items
            # port captions stand inside their ports: the name is the text with no port before it or after it only
            ports = [v for x, v in it if x == "port"]
            name, ins, outs = None, [], []
            j = 0
            while j < len(it):
                if it[j][0] == "port":
                    (ins if name is None else outs).append(it[j][1])
                    j += 2 if j + 1 < len(it) and it[j + 1][0] == "text" and it[j + 1][1] in (it[j][1], it[j][1].split("_")[-1]) else 1
                else:
                    name = it[j][1] if name is None else name
                    j += 1
            self.box[k] = (name, ins, outs)
        self.lines = lines

    def evaluate(self, ctx, funs, xs):
        """what arrives at Outputs, or None if a wire is missing or ambiguous"""
        src = {}
        for u, v in self.lines:
            if len(u) != 2 or len(v) != 2 or tuple(v) in src:
                return None
            src[tuple(v)] = u
        memo = {}

        def outs(k, depth):
            if k in memo:
                return memo[k]
            name, ip, op = self.box[k]
            if depth > len(self.box):
                return None
            if name == "Inputs":
                r = xs if len(op) == len(xs) and not ip else None
            else:
                args = arrive(k, depth)
                f = funs.get((name, len(ip), len(op)))
                r = None if args is None or f is None else f(args)
            memo[k] = r
            return r

        def arrive(k, depth):
            got = []
            for p in self.box[k][1]:
                u = src.get((k, p))
                if u is None or u[1] not in self.box[u[0]][2]:
                    return None
                o = outs(u[0], depth + 1)
                if o is None:
                    return None
                got.append(o[self.box[u[0]][2].index(u[1])])
            return got
        sinks = [k for k, b in self.box.items() if b[0] == "Outputs"]
        if len(sinks) != 1 or self.box[sinks[0]][2]:
            return None
        return arrive(sinks[0], 0)


# --- graphs ---------------------------------------------------------------------------
def _task(ctx, funs, label, i, o):
    def f(xs):
        return [ctx.app(f"{label} {i} {o}.{p}", *xs) for p in range(o)]
    funs[label, i, o] = f
    return MitTask(_label=label, _n_in_wires=i, _n_out_wires=o, _method=lambda obj, *a: tuple(f(list(a)))), f


def _ports(ctx, t):
    return t.n_in_wires, t.n_out_wires


def h_drawing(ctx, k, labels, max_w, nested):
    funs = {}
    g = TaskGraph(_label=ctx.choice("name", ["Graph", "My graph"]))
    ni, no = 1, 1
    n_tasks = Counter()
    for s in range(k):
        op = ctx.choice(f"op{s}", ["append", "prepend", "parallel", "wires"] + (["nested"] if nested else []))
        lab = ctx.choice(f"label{s}", labels if s or nested else labels[:1]) if op != "wires" else ""
        if op == "append":
            o = ctx.choice(f"o{s}", [1, max_w])
            g.append(_task(ctx, funs, lab, no, o)[0])
            n_tasks[lab, no, o] += 1
            no = o
        elif op == "prepend":
            i = ctx.choice(f"i{s}", [1, 2])
            g.prepend(_task(ctx, funs, lab, i, ni)[0])
            n_tasks[lab, i, ni] += 1
            ni = i
        elif op == "parallel":
            i, o = ctx.choice(f"io{s}", [(1, 1), (2, 1), (1, 2)])
            g.parallel(_task(ctx, funs, lab, i, o)[0])
            n_tasks[lab, i, o] += 1
            ni, no = ni + i, no + o
        elif op == "nested":
            t = TaskGraph(_label=lab)
            if no > 1:
                t.add_n_wires(no - 1)
            t.append(_task(ctx, funs, lab, no, 2)[0])
            g.append(t)
            n_tasks[lab, no, 2] += 1
            no = 2
        else:
            g.add_n_wires(2)
            ni, no = ni + 2, no + 2
    xs = [ctx.token(f"x{j}") for j in range(ni)]
    listed = Counter((t.label if isinstance(t, (MitTask, TaskGraph)) else str(t), getattr(t, "n_in_wires", None), getattr(t, "n_out_wires", None)) for t in g.tasks)
    ctx.check(listed == n_tasks, "the tasks listed are the graph's tasks, with their inputs and outputs")
    pic = Picture(ctx, g.get_task_graph().source)
    ctx.check(pic.valid, "labels are readable as the HTML which the drawing program expects")
    ctx.check(pic.ok, "every box is drawn once, and lines join boxes")
    seen = Counter((n, len(i), len(o)) for n, i, o in pic.box.values() if n not in ("Inputs", "Outputs"))
    ctx.check(seen == n_tasks, "every task is drawn, with its name and its inputs and outputs")
    got = pic.evaluate(ctx, funs, xs) if pic.ok else None
    ctx.check(got is not None and len(got) == no, "every input drawn has one line to it, from an output drawn")
    out = g.run(xs)
    if got is not None and len(got) == len(out):
        ctx.check(eq(list(got), list(out)), "the lines drawn join the ports which data passes between")
    again = Picture(ctx, g.get_task_graph().source)
    ctx.check(again.box == pic.box and again.lines == pic.lines, "drawing does not change the graph")
    ctx.cover("drawn")


def _library(ctx):
    from qermit.frame_randomisation import gen_Frame_Randomisation_MitRes
    from qermit.spectral_filtering.spectral_filtering import gen_spectral_filtering_MitEx
    from qermit.spectral_filtering import signal_filter
    from qermit.taskgraph import gen_MeasurementReduction_MitEx
    from qermit.spam import gen_UnCorrelated_SPAM_MitRes
    from qermit.zero_noise_extrapolation import gen_ZNE_MitEx
    from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx
    from checks.q02 import Device
    be = Device()
    smf = getattr(signal_filter, "SmallCoefficientSignalFilter", None)
    return {
        "frames": lambda: gen_Frame_Randomisation_MitRes(be, 2),
        "reduction": lambda: gen_MeasurementReduction_MitEx(be),
        "zne": lambda: gen_ZNE_MitEx(be, [3, 5]),
        "spam": lambda: gen_UnCorrelated_SPAM_MitRes(be, 10),
        "spectral": lambda: gen_spectral_filtering_MitEx(be, 2, optimisation_level=0),
        "pec": lambda: gen_PEC_learning_based_MitEx(device_backend=be, simulator_backend=be, num_cliff=2),
    }


def h_library(ctx, names):
    """the library's own methods, with their nested graphs in one box or taken apart"""
    lib = _library(ctx)
    name = ctx.choice("method", names)
    m = lib[name]()
    # graphs with wires straight through can not be taken apart
    if name != "spectral" and ctx.choice("apart", [False, True]):
        m.decompose_TaskGraph_nodes()
    r = ctx.real("x", 0, 1)
    ctx.check(r <= 1, "in range")
    tasks = m.tasks
    ctx.check(all(isinstance(t, (MitTask, TaskGraph)) for t in tasks), "only tasks are listed")
    tasks = [t for t in tasks if isinstance(t, (MitTask, TaskGraph))]
    pic = Picture(ctx, m.get_task_graph().source)
    ctx.check(pic.valid and pic.ok, "the drawing is readable")
    norm = lambda s: "".join(c for c in s if c.isalnum())
    seen = Counter((norm(n), len(i), len(o)) for n, i, o in pic.box.values() if n not in ("Inputs", "Outputs"))
    ctx.check(seen == Counter((norm(t.label), t.n_in_wires, t.n_out_wires) for t in tasks), "every task is drawn, with its name and its inputs and outputs")
    ctx.check(len(pic.lines) == sum(t.n_in_wires for t in tasks) + m.n_out_wires, "one line for each wire")
    ctx.check(sum(len(i) + len(o) for _, i, o in pic.box.values()) == 2 * len(pic.lines), "one line for each pair of ports")
    ctx.cover("drawn")


HARNESSES = [
    Harness("drawing", h_drawing, "3 (thorough 4) compositions, tasks of up to 2 inputs and 3 outputs, names drawn from 2; any data and any functions", ["drawn"],
            quick=dict(k=3, labels=["A", "B 1:2"], max_w=3, nested=False), thorough=dict(k=4, labels=["A", "B 1:2"], max_w=3, nested=False), max_paths=60000, time_budget=800),
    Harness("names", h_drawing, "2 (thorough 3) compositions, names with special characters, nested graphs", ["drawn"],
            quick=dict(k=2, labels=["A", "B&C", "out_0", "x: y", "é \"q\" \\n"], max_w=2, nested=True), thorough=dict(k=3, labels=["A", "B&C", "x: y"], max_w=2, nested=True), max_paths=60000, time_budget=800),
    Harness("library", h_library, "six of the library's methods", ["drawn"], quick=dict(names=["frames", "reduction", "zne", "spam", "spectral", "pec"])),
]
