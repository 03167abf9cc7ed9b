"""Ideal devices with an arbitrary (symbolic) quantum state.

A state of n qubits is rho = 2^-n sum_P r_P P with free real Pauli coefficients
r_P.  Outcome probabilities of a (Clifford) circuit are linear in them, so
"the estimate equals the true expectation for every state" is linear arithmetic."""
from collections import Counter
from fractions import Fraction
import itertools
import numpy as np
from pytket import Circuit, Qubit, Bit, OpType
from pytket.pauli import Pauli, QubitPauliString
from pytket.backends.backendresult import BackendResult
from pytket.utils.outcomearray import OutcomeArray
import z3
from .engine import ssum, SymReal

PM = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
PAULI = {"I": Pauli.I, "X": Pauli.X, "Y": Pauli.Y, "Z": Pauli.Z}
_cache = {}


def kron_all(ms):
    r = np.eye(1)
    for m in ms:
        r = np.kron(r, m)
    return r


def pauli_matrix(word):
    m = _cache.get(word)
    if m is None:
        m = _cache[word] = kron_all([PM[c] for c in word])
    return m


def words(n):
    return ["".join(t) for t in itertools.product("IXYZ", repeat=n)]


def frac(x):
    x = float(np.real(x))
    f = Fraction(x).limit_denominator(4096)
    assert abs(float(f) - x) < 1e-9, f"coefficient {x} is not dyadic: the circuit is outside the Clifford fragment"
    return f


def readout(circ, qubits):
    """(unitary before readout, {bit: index of the qubit measured into it})"""
    d = Circuit()
    for q in qubits:
        d.add_qubit(q)
    bits = {}
    done = set()
    for com in circ.get_commands():
        if com.op.type == OpType.Measure:
            bits[com.bits[0]] = com.qubits[0]
            done.add(com.qubits[0])
        elif com.op.type == OpType.Barrier:
            continue
        else:
            assert not (set(com.qubits) & done), "gate after measurement"
            d.add_gate(com.op, com.qubits)
    order = list(d.qubits)   # unitary order: sorted
    idx = {q: i for i, q in enumerate(order)}
    return d.get_unitary(), {b: idx[q] for b, q in bits.items()}, order


class SymState:
    """arbitrary state of the given qubits; state.coef[word] over sorted qubits"""

    def __init__(self, ctx, name, qubits):
        self.qubits = sorted(qubits)
        self.n = len(self.qubits)
        self.ctx = ctx
        self.coef = {w: (1 if set(w) <= {"I"} else ctx.real(f"{name}_{w}", -1, 1)) for w in words(self.n)}

    def expect_matrix(self, M):
        """Tr(rho M) for a Hermitian M, linear in the coefficients"""
        t = 0
        for w, c in self.coef.items():
            k = frac(np.trace(pauli_matrix(w) @ M) / 2 ** self.n)
            if k:
                t = t + k * c
        return t

    def expect(self, string, circ=None):
        """<string> after running the (Clifford) circuit"""
        mp = string.map if isinstance(string, QubitPauliString) else dict(string)
        inv = {v: k for k, v in PAULI.items()}
        w = "".join(inv[mp.get(q, Pauli.I)] for q in self.qubits)
        M = pauli_matrix(w)
        if circ is not None:
            U = circ.get_unitary()
            M = U.conj().T @ M @ U
        return self.expect_matrix(M)

    def distribution(self, circ, fill=0):
        """{outcome over circ.bits (sorted): probability} of running circ from this state"""
        U, where, order = readout(circ, self.qubits)
        assert order == self.qubits
        bits = sorted(circ.bits)
        out = {}
        n = self.n
        meas = sorted(set(where.values()))
        for pat in itertools.product((0, 1), repeat=len(meas)):
            diag = np.array([1.0 if all(((i >> (n - 1 - q)) & 1) == v for q, v in zip(meas, pat)) else 0.0 for i in range(2 ** n)])
            M = U.conj().T @ (diag[:, None] * U)
            val = dict(zip(meas, pat))
            o = tuple(val[where[b]] if b in where else fill for b in bits)
            p = self.expect_matrix(M)
            out[o] = p
        return bits, out

    def run(self, circ, total=1, fill=0, scale=None):
        bits, dist = self.distribution(circ, fill)
        cnt = Counter()
        for o, p in dist.items():
            if isinstance(p, Fraction) or isinstance(p, int):
                if p == 0:
                    continue
                p = SymReal(z3.RealVal(str(p))) if self.ctx.symbolic else p
            else:
                self.ctx.assume(p > 0)
            if scale is not None:
                p = p * scale
            if not self.ctx.symbolic:
                p = round(float(p) * 10**9)  # the real Counter wants integers
            cnt[OutcomeArray.from_readouts([list(o)])] = p
        return BackendResult(counts=cnt, c_bits=bits)


def qps(word, qubits):
    return QubitPauliString({q: PAULI[c] for q, c in zip(qubits, word)})
