"""Q14 -- the transpiler backend takes every shot from its own freshly transpiled circuit."""
import itertools
import multiprocessing
from collections import Counter
from symx import engine as E
from symx.engine import eq, land
from symx.runner import Harness
from symx.stubs import StubBackend, counts_result, shots_result, patched
from pytket import Circuit, Qubit, Bit, OpType
from pytket.passes import CustomPass
import qermit.noise_model.transpiler_backend as tb
from qermit.noise_model.transpiler_backend import TranspilerBackend

ASSUMPTIONS = ["the simulator returns, for a circuit and one shot, one outcome over the circuit's bits, in any bit order",
               "worker processes are run in this process (a stand-in pool), eagerly or when their result is asked for"]


class Sim(StubBackend):
    def __init__(self, provider):
        super().__init__(provider)
        self.rebased = []

    def rebase_pass(self):
        def f(c):
            self.rebased.append(1)
            d = c.copy()
            d.add_phase(0.25)   # visible, acts as nothing
            return d
        return CustomPass(f)

    def default_compilation_pass(self, *a, **k):
        return CustomPass(lambda c: c)


class _Async:
    def __init__(self, f, lazy):
        self.f, self.v, self.done = f, None, False
        if not lazy:
            self.get()

    def get(self, timeout=None):
        if not self.done:
            self.v, self.done = self.f(), True
        return self.v

    def wait(self, *a):
        self.get()


class Pool:
    lazy = False
    made = []

    def __init__(self, processes=None, *a, **k):
        Pool.made.append(processes)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def apply_async(self, f, args=(), kwds={}, **k):
        return _Async(lambda: f(*args, **kwds), Pool.lazy)

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def map(self, f, xs, *a):
        return [f(x) for x in xs]

    def starmap(self, f, xs, *a):
        return [f(*x) for x in xs]

    def map_async(self, f, xs, *a, **k):
        xs = list(xs)
        return _Async(lambda: [f(x) for x in xs], Pool.lazy)

    def starmap_async(self, f, xs, *a, **k):
        xs = list(xs)
        return _Async(lambda: [f(*x) for x in xs], Pool.lazy)

    def imap(self, f, xs, *a):
        return iter([f(x) for x in xs])

    imap_unordered = imap

    def close(self):
        pass

    def join(self):
        pass

    terminate = close


def _env(sim):
    out = [(TranspilerBackend, "backend", sim), (multiprocessing, "Pool", Pool)]
    if hasattr(tb, "AerBackend"):
        out.append((tb, "AerBackend", lambda *a, **k: sim))
    if hasattr(tb, "Pool"):
        out.append((tb, "Pool", Pool))
    return patched(*out)


BITS = [Bit("b", 0), Bit("a", 1)]


def _circ(k, bits):
    c = Circuit()
    qs = [Qubit(i) for i in range(2)]
    for q in qs:
        c.add_qubit(q)
    for b in bits:
        c.add_bit(b)
    c.Rx(0.5 + k, qs[0])      # identifies the circuit
    c.H(qs[1])
    for q, b in zip(qs, bits):
        c.Measure(q, b)
    return c


def _ident(c):
    return [com.op.params[0] - 0.5 for com in c.get_commands() if com.op.type == OpType.Rx][0]


def _tags(c):
    return [com.op.params[0] for com in c.get_commands() if com.op.type == OpType.Ry]


class _Run:
    """the environment of one run"""

    def __init__(self, ctx, bits_of, cores, outcomes):
        self.ctx, self.tag, self.seen = ctx, 0, []
        self.outs = {}
        Pool.lazy = ctx.choice("lazy", [False, True]) if cores > 1 else False

        def provider(c, s, k):
            assert s == 1, "one shot of each transpiled circuit"
            i = int(_ident(c))
            bits = bits_of[i]
            if len(bits) > 2:
                o = tuple((k >> j) & 1 for j in range(len(bits)))
            else:
                o = ctx.choice(f"out{k}", outcomes) if outcomes else ((k + i // 2) % 2, (i + k // 3) % 2)
            self.seen.append((i, _tags(c), c))
            self.outs.setdefault(i, []).append(dict(zip(bits, o)))
            perm = list(bits)[::-1] if k % 2 else list(bits)
            v = dict(zip(bits, o))
            return shots_result([[v[b] for b in perm]], perm)
        self.sim = Sim(provider)

        def add(c):
            d = c.copy()
            d.Ry(1 + self.tag / 64, c.qubits[0])
            self.tag += 1
            return d
        self.transpiler = CustomPass(add)

    def judge(self, wanted, maxb, circs, keeps):
        ctx = self.ctx
        ctx.check(all(s == 1 for _, s in self.sim.jobs), "every transpiled circuit is run for one shot")
        n = Counter(i for i, _, _ in self.seen)
        ctx.check(land(*[eq(n[i], w) for i, w in wanted.items()]), "exactly the shots requested are taken")
        tags = [t for _, ts, _ in self.seen for t in ts]
        ctx.check(all(len(ts) == 1 for _, ts, _ in self.seen) and len(set(tags)) == len(tags), "each shot has its own transpiled copy of the circuit given")
        ctx.check(land(*[len(cs) <= maxb for cs, _ in self.sim.calls]), "no batch is larger than the maximum")
        ctx.check(all(abs(float(c.phase)) > 1e-9 for _, _, c in self.seen), "each is rebased for the simulator after transpiling")
        ctx.check(all(c == k for c, k in zip(circs, keeps)), "the circuits given are not changed")

    def counts(self, i, bits):
        c = Counter()
        for o in self.outs.get(i, []):
            c[tuple(o[b] for b in bits)] += 1
        return c


def h_counts(ctx, smax, bmax, cores, outcomes):
    """get_counts of one circuit, on any list of bits"""
    n = ctx.int("shots", 1, smax)
    maxb = ctx.int("max_batch", 1, bmax)
    c = _circ(0, BITS)
    keep = c.copy()
    r = _Run(ctx, {0: BITS}, cores, outcomes)
    bits = ctx.choice("cbits", [BITS, BITS[::-1], [BITS[1]], None])
    with _env(r.sim):
        be = TranspilerBackend(transpiler=r.transpiler, result_dict={}, max_batch_size=maxb, n_cores=cores)
        got = be.get_counts(circuit=c, n_shots=n, cbits=bits)
    r.judge({0: n}, maxb, [c], [keep])
    if bits is not None:
        ctx.check(dict(got) == dict(r.counts(0, bits)), "counts on the listed bits, in their order")
    else:
        ctx.check(eq(sum(got.values()), n), "counts of all shots")
    ctx.cover("counts")


def h_wide(ctx, lo, hi, batches, cores):
    """many shots, all with different outcomes"""
    n = ctx.int("shots", lo, hi)
    maxb = ctx.choice("max_batch", batches)
    bits = [Bit("b", i) for i in range(11, 6, -1)] + [Bit("a", [1, i]) for i in range(4)]
    c = _circ(0, bits)
    keep = c.copy()
    k = ctx.choice("cores", cores)
    r = _Run(ctx, {0: bits}, k, None)
    with _env(r.sim):
        be = TranspilerBackend(transpiler=r.transpiler, result_dict={}, max_batch_size=maxb, n_cores=k)
        res = be.run_circuit(c, n)
    r.judge({0: n}, maxb, [c], [keep])
    ctx.check(dict(res.get_counts(cbits=bits)) == dict(r.counts(0, bits)), "the outcome of every shot is counted")
    ctx.cover("counts")


def h_results(ctx, smax, bmax, cores, outcomes, m):
    """several circuits, results by handle in any order"""
    maxb = ctx.int("max_batch", 1, bmax)
    bits_of = {i: [BITS, [Bit(0), Bit(1)], [Bit(0), Bit(1)], [Bit("b", 10), Bit("b", 9)]][i] for i in range(m)}
    ns = {i: ctx.int(f"shots{i}", 1, smax) for i in range(m)}
    circs = [_circ(i, bits_of[i]) for i in range(m)]
    keeps = [c.copy() for c in circs]
    r = _Run(ctx, bits_of, cores, outcomes)
    how = ctx.choice("how", ["circuits", "circuit", "run"])
    with _env(r.sim):
        be = TranspilerBackend(transpiler=r.transpiler, max_batch_size=maxb, n_cores=cores)
        if how == "run":
            res = {i: be.run_circuit(c, ns[i]) for i, c in enumerate(circs)}
        else:
            hs = be.process_circuits(circs, [ns[i] for i in range(m)]) if how == "circuits" else [be.process_circuit(c, ns[i]) for i, c in enumerate(circs)]
            ctx.check(len(set(hs)) == m, "handles are distinct")
            order = ctx.choice("order", list(itertools.permutations(range(m))))
            got = be.get_results([hs[i] for i in order])
            res = dict(zip(order, got))
            ctx.check(all(be.get_result(hs[i]).get_counts() == res[i].get_counts() for i in order), "a result can be retrieved again")
    r.judge(ns, maxb, circs, keeps)
    for i in range(m):
        for bits in (bits_of[i], bits_of[i][::-1]):
            ctx.check(dict(res[i].get_counts(cbits=bits)) == dict(r.counts(i, bits)), "each handle has the counts of its own circuit, bit by bit")
    ctx.cover("results")


O2 = [(0, 1), (1, 1)]
HARNESSES = [
    Harness("counts", h_counts, "1..4 shots (thorough 5), batches of 1..3 (thorough 5), one core, two outcomes per shot, any bits asked for", ["counts"],
            quick=dict(smax=4, bmax=3, cores=1, outcomes=O2), thorough=dict(smax=6, bmax=7, cores=1, outcomes=O2), max_paths=60000, time_budget=800),
    Harness("cores", h_counts, "1..3 shots (thorough 5), batches of 1..3, two cores, eager or lazy workers", ["counts"],
            quick=dict(smax=3, bmax=3, cores=2, outcomes=O2), thorough=dict(smax=5, bmax=6, cores=3, outcomes=O2), max_paths=60000, time_budget=800),
    Harness("results", h_results, "2 circuits (thorough 3) of 1..2 shots, batches of 1..2", ["results"],
            quick=dict(smax=2, bmax=2, cores=1, outcomes=O2, m=2), thorough=dict(smax=2, bmax=3, cores=1, outcomes=O2, m=3), max_paths=60000, time_budget=800),
    Harness("results_cores", h_results, "2 circuits of 1..2 shots, two cores", ["results"],
            quick=dict(smax=2, bmax=2, cores=2, outcomes=[(0, 1), (1, 0)], m=2), thorough=dict(smax=3, bmax=3, cores=2, outcomes=[(0, 1), (1, 0)], m=2), max_paths=60000, time_budget=800),
    Harness("many", h_counts, "1..11 shots (thorough 20), batches of 1..12 (thorough 22), one core, fixed outcomes", ["counts"],
            quick=dict(smax=11, bmax=12, cores=1, outcomes=None), thorough=dict(smax=20, bmax=22, cores=1, outcomes=None), max_paths=60000, time_budget=800),
    Harness("many_cores", h_counts, "1..9 shots (thorough 20), batches of 1..5 (thorough 12), three cores, eager or lazy workers, fixed outcomes", ["counts"],
            quick=dict(smax=9, bmax=5, cores=3, outcomes=None), thorough=dict(smax=20, bmax=12, cores=4, outcomes=None), max_paths=60000, time_budget=800),
    Harness("wide", h_wide, "129..136 shots (thorough 129..180), batches of 7, 100 or 1000, one or two cores, 9 bits, all outcomes different", ["counts"],
            quick=dict(lo=129, hi=136, batches=[7, 100, 1000], cores=[1, 2]), thorough=dict(lo=129, hi=180, batches=[1, 7, 60, 100, 1000], cores=[1, 2]), max_paths=60000, time_budget=800),
    Harness("three", h_results, "3 circuits (thorough 4) of 1..3 shots, batches of 1..2, fixed outcomes", ["results"],
            quick=dict(smax=3, bmax=2, cores=1, outcomes=None, m=3), thorough=dict(smax=3, bmax=3, cores=1, outcomes=None, m=4), max_paths=60000, time_budget=800),
    Harness("three_cores", h_results, "3 circuits of 1..2 shots, two cores, fixed outcomes", ["results"],
            quick=dict(smax=2, bmax=2, cores=2, outcomes=None, m=3), thorough=dict(smax=3, bmax=2, cores=2, outcomes=None, m=3), max_paths=60000, time_budget=800),
]
