"""Reference mass-action kinetics written from the documentation, used by several checks."""
import numpy as np
import cantera as ct
R, F = ct.gas_constant, ct.faraday


class Idx(dict):
    def __missing__(self, k):
        m = [v for n, v in self.items() if n.lower() == k.lower()]
        if len(m) != 1:
            raise KeyError(k)
        return m[0]


class Ref:
    """Stoichiometry of a mechanism taken from its Reaction objects (never from the kinetics manager's tables)."""

    def __init__(self, kin, phases):
        self.kin, self.phases = kin, phases
        names = list(kin.kinetics_species_names)
        self.names = names
        self.idx = Idx({n: i for i, n in enumerate(names)})
        rx = kin.reactions()
        n, m = len(names), len(rx)
        self.nu_r, self.nu_p = np.zeros((m, n)), np.zeros((m, n))
        self.order_f = np.zeros((m, n))
        self.rev = np.zeros(m, bool)
        self.elementary = np.ones(m, bool)
        self.rx = rx
        for i, r in enumerate(rx):
            for s, v in r.reactants.items():
                self.nu_r[i, self.idx[s]] += v
            for s, v in r.products.items():
                self.nu_p[i, self.idx[s]] += v
            self.order_f[i] = self.nu_r[i]
            for s, v in r.orders.items():
                self.order_f[i, self.idx[s]] = v
                self.elementary[i] = False
            self.rev[i] = r.reversible
        self.nu = self.nu_p - self.nu_r
        el = sorted({e for p in phases for e in p.element_names})
        self.elements = el
        A = np.zeros((len(el), n))
        for p in phases:
            for s in p.species():
                if s.name in self.idx:
                    for e, v in s.composition.items():
                        A[el.index(e), self.idx[s.name]] = v
        self.A = A
        self.charge = np.zeros(n)
        for p in phases:
            for s in p.species():
                if s.name in self.idx:
                    self.charge[self.idx[s.name]] = s.charge

    def cat(self, f):
        """Concatenate per-phase vectors in kinetics order."""
        out = np.full(len(self.names), np.nan)
        for p in self.phases:
            v = f(p)
            for s, x in zip(p.species_names, v):
                if s in self.idx:
                    out[self.idx[s]] = x
        return out


def prodpow(c, e):
    with np.errstate(all='ignore'):
        t = np.where(e == 0, 1.0, np.power(np.maximum(c, 0)[None, :], e))
    return t.prod(axis=1)
