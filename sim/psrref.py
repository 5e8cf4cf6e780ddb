"""Independent reference for stirred-reactor response curves (nothing imported from pymars).

The steady equations are solved for the residence time at a given temperature, which is regular along the burning
branch, through the extinction fold and along the middle branch.
"""

import hashlib

import numpy as np

from .ops import set_state
from .world import REAL, W

_cache = {}
DT = 4.0


class Curve:
    def __init__(self, text, phase, case):
        import cantera as ct

        self.gas = ct.Solution(yaml=text) if not phase else ct.Solution(yaml=text, name=phase)
        set_state(self.gas, case)
        self.case = case
        g = self.gas
        self.n = g.n_species
        self.P, self.Yin, self.hin, self.Tin = g.P, g.Y.copy(), g.enthalpy_mass, g.T
        self.cp = g.cp_mass
        self.W = g.molecular_weights
        self.rows = []          # T, ln tau
        self.ok = False

    def residual(self, Y, T, tau):
        """Species and energy balances, as fractions of the inlet mass and of cp * 1000 K."""
        g = self.gas
        g.set_unnormalized_mass_fractions(Y)
        g.TP = T, self.P
        w = REAL["npr"].__get__(g) * self.W
        return np.append(Y - self.Yin - tau * w / g.density, (g.enthalpy_mass - self.hin) / (self.cp * 1000.0))

    def at_temperature(self, T, Y, lt):
        """Solve for (Y, ln tau) at T, from a guess; None if not found."""
        import cantera as ct

        def f(x):
            try:
                return self.residual(x[:-1], T, float(np.exp(np.clip(x[-1], -50, 50))))
            except ct.CanteraError:
                return np.full(self.n + 1, 1e3)

        s = REAL["root"](f, np.append(Y, lt), method="hybr", tol=1e-11)
        if np.linalg.norm(s.fun) > 1e-7:
            return None
        return s.x[:-1], float(s.x[-1])

    def at_tau(self, tau, Y, T):
        import cantera as ct

        def f(x):
            try:
                return self.residual(x[:-1], float(x[-1]) * 1000.0, tau) if x[-1] > 0.1 else np.full(self.n + 1, 1e3)
            except ct.CanteraError:
                return np.full(self.n + 1, 1e3)

        s = REAL["root"](f, np.append(Y, T / 1000.0), method="hybr", tol=1e-11)
        if np.linalg.norm(s.fun) > 1e-7:
            return None
        return s.x[:-1], float(s.x[-1]) * 1000.0

    def trace(self, down_to=None):
        """From a residence time of 1 s through the extinction fold, and on to temperature ``down_to``."""
        W.cfg["_oracle"] = True
        try:
            REAL["equilibrate"](self.gas, "HP")
            first = self.at_tau(1.0, self.gas.Y.copy(), self.gas.T)
        finally:
            W.cfg.pop("_oracle", None)
        if first is None:
            return self
        Y, T = first
        self.T1 = T
        old, cur = None, (Y, 0.0)
        self.rows = [(T, 0.0)]
        lo, dt = 0.0, 1e-3
        while T > self.Tin + 20.0:
            Tn = T - dt
            if old is None:
                Yg, lg = cur
            else:
                r = (Tn - T) / (T - old[2])
                Yg, lg = cur[0] + r * (cur[0] - old[0]), cur[1] + r * (cur[1] - old[1])
            s = self.at_temperature(Tn, Yg, lg)
            # beyond the fold, temperature may turn as well: do not step across to the other side
            far = 0.15 if cur[1] > lo + 0.2 else 1.5
            if s is None or abs(s[1] - cur[1]) > far:
                s = self.at_temperature(Tn, *cur)
            if s is None or abs(s[1] - cur[1]) > far:
                if dt > 1e-5:
                    dt /= 2
                    continue
                break
            old, cur, T = (cur[0], cur[1], T), s, Tn
            self.rows.append((T, s[1]))
            lo = min(lo, s[1])
            dt = min(DT, dt * 1.5)
            if s[1] > lo + 0.3 and (down_to is None or T < down_to - 1.0):
                break
        a = np.array(self.rows)
        i = int(np.argmin(a[:, 1]))
        if a[-1, 1] < a[i, 1] + 0.3:
            return self
        if not 0 < i < len(a) - 1:
            return self
        p = np.polyfit(a[i - 1 : i + 2, 0] - a[i, 0], a[i - 1 : i + 2, 1], 2)
        x = -p[1] / (2 * p[0])
        self.T_ext, self.lt_ext = float(a[i, 0] + x), float(np.polyval(p, x))
        self.a = a
        self.ok = True
        return self

    def burning(self, tau):
        """Temperature of the burning reactor at this residence time; None if not found from equilibrium."""
        set_state(self.gas, self.case)
        W.cfg["_oracle"] = True
        try:
            REAL["equilibrate"](self.gas, "HP")
            s = self.at_tau(tau, self.gas.Y.copy(), self.gas.T)
        finally:
            W.cfg.pop("_oracle", None)
        return None if s is None or s[1] < self.T_ext else s[1]

    def distance(self, tau, T):
        """How far (tau, T) is from the curve: the smaller of the distance in ln tau and in 100 K."""
        from scipy.interpolate import CubicSpline

        if T < self.a[-1, 0] or T > self.a[0, 0] + 50:
            return None
        f = CubicSpline(self.a[::-1, 0], self.a[::-1, 1])
        d = abs(float(f(min(T, self.a[0, 0]))) - np.log(tau))
        # the curve is steep in ln tau near equilibrium: allow for a distance in temperature
        for e in (-0.5, 0.5):
            d2 = float(f(min(T + e, self.a[0, 0]))) - np.log(tau)
            if d2 * (float(f(min(T, self.a[0, 0]))) - np.log(tau)) <= 0:
                d = min(d, 0.005)
        return d


def curve(text, phase, case, down_to=None):
    k = (hashlib.sha1(text.encode()).hexdigest(), phase, repr(sorted(case.items())), None if down_to is None else round(down_to))
    if k not in _cache:
        if len(_cache) > 50:
            _cache.clear()
        _cache[k] = Curve(text, phase, case).trace(down_to)
    return _cache[k]
