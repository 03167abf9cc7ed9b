"""Environment stand-ins shared by the harnesses (used in both modes)."""
import contextlib
from collections import Counter
import itertools
import numpy as np
from pytket import Circuit, Bit, Qubit, OpType
from pytket.backends.backendresult import BackendResult
from pytket.utils.outcomearray import OutcomeArray


class StubBackend:
    """A backend whose results are chosen by the harness.

    ``provider(circuit, n_shots, k)`` returns the BackendResult of the k-th
    circuit ever processed.  Handles are opaque and may be retrieved in any order."""

    def __init__(self, provider, compile=None):
        self.provider = provider
        self.calls = []       # [(circuits, shots)]
        self.jobs = []        # flat list of (circuit, shots)
        self._compile = compile or (lambda c, lvl: c.copy())
        self.compiled = []

    def process_circuits(self, circuits, n_shots=None, **kw):
        circuits = list(circuits)
        shots = list(n_shots) if isinstance(n_shots, (list, tuple)) else [n_shots] * len(circuits)
        assert len(shots) == len(circuits)
        self.calls.append((circuits, shots))
        hs = []
        for c, s in zip(circuits, shots):
            self.jobs.append((c, s))
            hs.append(("handle", len(self.jobs) - 1))
        return hs

    def process_circuit(self, circuit, n_shots=None, **kw):
        return self.process_circuits([circuit], [n_shots])[0]

    def get_result(self, handle, **kw):
        k = handle[1]
        c, s = self.jobs[k]
        return self.provider(c, s, k)

    def get_results(self, handles, **kw):
        return [self.get_result(h) for h in handles]

    def run_circuit(self, circuit, n_shots=None, **kw):
        return self.get_result(self.process_circuit(circuit, n_shots))

    def run_circuits(self, circuits, n_shots=None, **kw):
        return self.get_results(self.process_circuits(circuits, n_shots))

    def get_compiled_circuit(self, circuit, optimisation_level=2, **kw):
        self.compiled.append(circuit)
        return self._compile(circuit, optimisation_level)

    def get_compiled_circuits(self, circuits, optimisation_level=2, **kw):
        return [self.get_compiled_circuit(c, optimisation_level) for c in circuits]

    def valid_circuit(self, circuit):
        return True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def shots_result(rows, c_bits):
    """BackendResult holding a concrete shot table"""
    arr = np.array([list(map(int, r)) for r in rows], dtype=np.uint8).reshape(len(rows), len(c_bits))
    return BackendResult(shots=OutcomeArray.from_readouts(arr), c_bits=list(c_bits))


def counts_result(counts, c_bits):
    """BackendResult over all given outcomes; the multiplicities may be symbolic"""
    return BackendResult(counts=Counter({OutcomeArray.from_readouts([list(o)]): n for o, n in counts.items()}), c_bits=list(c_bits))


def all_outcomes(n):
    return list(itertools.product((0, 1), repeat=n))


def sym_counts(ctx, name, n, lo=0, hi=None):
    """arbitrary number of shots for every outcome of n bits"""
    return {o: ctx.int(f"{name}_{''.join(map(str, o))}", lo, hi) for o in all_outcomes(n)}


@contextlib.contextmanager
def patched(*triples):
    """patched((obj, name, new), ...): temporary attribute replacement"""
    old = []
    try:
        for o, n, v in triples:
            old.append((o, n, getattr(o, n)))
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old):
            setattr(o, n, v)
