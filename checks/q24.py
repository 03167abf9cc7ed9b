"""Q24 -- simulated devices apply exactly the noise asked for."""
import itertools
from types import SimpleNamespace
import numpy as np
from symx import engine as E
from symx.engine import eq, land
from symx.runner import Harness
from symx.stubs import patched
from pytket import Circuit, OpType, Bit, Qubit
from pytket.backends import ResultHandle
from pytket.extensions.qiskit import AerBackend
import qermit.noise_model.noisy_aer_backend as nab
import qermit.noise_model.mock_quantinuum_backend as mq

ASSUMPTIONS = ["qiskit's noise model applies a channel to the gates and qubits it was added for, composing channels added twice; a depolarising channel is known by its eigenvalue",
               "circuits run on the simulator have gates from its noisy gate set"]
NAME = {OpType.CX: "cx", OpType.H: "h", OpType.Rz: "rz", OpType.Rx: "rx"}


class _Channel:
    """n-qubit depolarising channel with eigenvalue f"""

    def __init__(self, f, n):
        self.f, self.n = f, n

    def compose(self, o):
        return _Channel(self.f * o.f, self.n)

    dot = compose


class _Noise:
    """stand-in for qiskit's NoiseModel: what is added where"""

    def __init__(self, *a, **k):
        self.gate, self.all, self.ro, self.ro_all = {}, {}, {}, None

    def add_quantum_error(self, error, instructions, qubits, **k):
        for i in [instructions] if isinstance(instructions, str) else list(instructions):
            assert len(list(qubits)) == error.n, "channel and qubits differ in size"
            key = (i, tuple(qubits))
            self.gate[key] = error.compose(self.gate[key]) if key in self.gate else error

    def add_all_qubit_quantum_error(self, error, instructions, **k):
        for i in [instructions] if isinstance(instructions, str) else list(instructions):
            self.all[i] = error.compose(self.all[i]) if i in self.all else error

    def add_readout_error(self, error, qubits, **k):
        (q,) = tuple(qubits)
        self.ro[q] = error

    def add_all_qubit_readout_error(self, error, **k):
        self.ro_all = error

    def at(self, name, qubits):
        c = self.gate.get((name, tuple(qubits)), self.all.get(name))
        return 1 if c is None else c.f

    def readout(self, q):
        return self.ro.get(q, self.ro_all)


def _module():
    m = SimpleNamespace(NoiseModel=_Noise, depolarizing_error=lambda p, n: _Channel(1 - p, n), ReadoutError=lambda p: [list(r) for r in p])
    m.errors = m
    return m


def _fake_init(got):
    real = AerBackend.__init__

    def init(self, noise_model=None, *a, **k):
        got.append(noise_model)
        real(self, None, *a, **k)
    return init


def _backend(cls, *a):
    got = []
    with patched((nab, "noise", _module()), (AerBackend, "__init__", _fake_init(got))):
        be = cls(*a)
    return be, got


def h_noise(ctx, n_max):
    """every gate, qubit and readout has its own error at the rate given"""
    n = ctx.choice("qubits", list(range(1, n_max + 1)))
    p1, p2, pr = (ctx.real(x, 0, 1) for x in ("p1", "p2", "pr"))
    be, got = _backend(nab.NoisyAerBackend, n, p1, p2, pr)
    ctx.check(len(got) == 1 and isinstance(got[0], _Noise), "the simulator has one noise model")
    m = got[0]
    for q in range(n):
        for g in ("h", "rz"):
            ctx.check(eq(m.at(g, [q]), 1 - p1), "single-qubit gates on every qubit are depolarised at their rate")
        r = m.readout(q)
        ctx.check(r is not None, "every qubit has a readout error")
        ctx.check(land(eq(r[0][0], 1 - pr), eq(r[0][1], pr), eq(r[1][0], pr), eq(r[1][1], 1 - pr)), "readout flips either value at its rate")
    for a, b in itertools.permutations(range(n), 2):
        ctx.check(eq(m.at("cx", [a, b]), 1 - p2), "two-qubit gates on every pair, in either direction, are depolarised at their rate")
    ctx.check(all(max(qs) < n for _, qs in m.gate), "only the device's qubits are noisy")
    ctx.cover("noise")


def _distribution(c):
    """exact outcome distribution over the bits, measurements last"""
    d, where = Circuit(), {}
    for q in c.qubits:
        d.add_qubit(q)
    for com in c.get_commands():
        if com.op.type == OpType.Measure:
            where[com.bits[0]] = com.qubits[0]
        elif com.op.type != OpType.Barrier:
            d.add_gate(com.op, com.qubits)
    v = np.abs(d.get_statevector()) ** 2
    qs, out = d.qubits, {}
    for i, p in enumerate(v):
        val = {q: i >> (len(qs) - 1 - k) & 1 for k, q in enumerate(qs)}
        key = tuple(val[where[b]] if b in where else 0 for b in sorted(c.bits))
        out[key] = out.get(key, 0) + p
    return {k: p for k, p in out.items() if p > 1e-9}


def _circuits():
    c = Circuit(2, 2).add_gate(OpType.PhasedX, [0.3, 0.2], [0]).Rz(0.4, 0).ZZPhase(0.7, 0, 1).add_gate(OpType.PhasedX, [0.6, 0.1], [1]).add_gate(OpType.PhasedX, [0.25, 0.9], [0])
    yield c.Measure(0, 1).Measure(1, 0)
    c = Circuit(3, 2).add_gate(OpType.PhasedX, [0.7, 0.2], [2]).ZZMax(2, 0).add_gate(OpType.PhasedX, [0.4, 0.3], [0]).add_gate(OpType.PhasedX, [0.9, 0.5], [2]).ZZMax(0, 1)
    yield c.Measure(2, 0).Measure(0, 1)
    c = Circuit(1, 1).add_gate(OpType.PhasedX, [0.8, 0], [0])
    yield c.Measure(0, 0)


def h_mock(ctx):
    """what the mock device runs is the circuit given, in noisy gates only"""
    r = ctx.real("dummy", 0, 1)
    ctx.check(r <= 1, "in range")
    c = ctx.choice("circuit", list(_circuits()))
    keep = c.copy()
    shots = ctx.int("shots", 1, None)
    be, got = _backend(mq.MockQuantinuumBackend)
    m = got[0]
    ran = []

    def process(self, circuit, n_shots=None, *a, **k):
        ran.append((circuit, n_shots))
        return ResultHandle(str(len(ran)))

    def process_all(self, circuits, n_shots=None, *a, **k):
        ns = n_shots if isinstance(n_shots, (list, tuple)) else [n_shots] * len(circuits)
        return [process(self, c, s) for c, s in zip(circuits, ns)]
    with patched((nab.NoisyAerBackend, "process_circuit", process), (nab.NoisyAerBackend, "process_circuits", process_all)):
        be.process_circuit(c, shots)
    ctx.check(len(ran) == 1, "the circuit is run once")
    d, s = ran[0]
    ctx.check(eq(s, shots), "with its own shots")
    n = be.backend_info.n_nodes
    used = 0
    for com in d.get_commands():
        if com.op.type in (OpType.Measure, OpType.Barrier, OpType.Reset):
            continue
        f = m.at(NAME.get(com.op.type, com.op.type.name.lower()), [q.index[0] for q in com.qubits])
        ctx.check(f < 1, "every gate run is noisy")
        used += 1
    ctx.check(used > 0 and all(m.readout(q) is not None for q in range(n)), "every readout is noisy")
    a, b = _distribution(d), _distribution(keep)
    ctx.check(all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-7 for k in set(a) | set(b)), "without noise the outcomes are distributed as those of the circuit given")
    ctx.check(c == keep, "the circuit given is not changed")
    ctx.cover("ran")


def h_valid(ctx):
    """circuits the device can not run are refused, unless the check is turned off"""
    kind = ctx.choice("kind", ["gate", "qubits", "fine"])
    c = {"gate": Circuit(2).CSX(0, 1).CRz(0.3, 0, 1), "qubits": Circuit(11).add_gate(OpType.PhasedX, [0.1, 0.2], [10]), "fine": next(_circuits())}[kind]
    if kind == "gate":
        c = Circuit(2, 1).add_gate(OpType.CnRy, [0.3], [0, 1])
    check = ctx.choice("check", ["default", True, False])
    many = ctx.choice("many", [False, True])
    shots = ctx.int("shots", 1, None)
    be, _ = _backend(mq.MockQuantinuumBackend)
    ran = []

    def process(self, circuit, n_shots=None, *a, **k):
        ran.append((circuit, n_shots))
        return ResultHandle(str(len(ran)))
    kw = {} if check == "default" else {"valid_check": check}
    err = None
    with patched((nab.NoisyAerBackend, "process_circuit", process)):
        try:
            if many:
                be.process_circuits([c], ctx.choice("list", [[shots], shots]), **kw)
            else:
                be.process_circuit(c, shots, **kw)
        except E.PathAbort:
            raise
        except Exception as ex:
            err = ex
    if kind == "fine":
        ctx.check(err is None and len(ran) == 1, "circuits of the device are run")
        ctx.check(eq(ran[0][1], shots), "with their own shots")
        ctx.cover("run")
    elif check is not False:
        ctx.check(err is not None and not ran, "a circuit which the device can not run is refused")
        ctx.check(shots >= 1, "range")
        ctx.cover("refused")
    else:
        ctx.check(err is None and len(ran) == 1, "the check can be turned off")
        ctx.cover("unchecked")


HARNESSES = [
    Harness("noise", h_noise, "1-4 qubits (thorough 10), any rates", ["noise"], quick=dict(n_max=4), thorough=dict(n_max=10), stubs=["qiskit noise model: channels added per gate and qubits"]),
    Harness("mock", h_mock, "three circuits, any shots", ["ran"], stubs=["qiskit noise model", "simulator: jobs are recorded"]),
    Harness("valid", h_valid, "a circuit of the device, one with a gate and one with more qubits than it has; alone or in a list", ["run", "refused", "unchecked"], stubs=["qiskit noise model", "simulator: jobs are recorded"]),
]
