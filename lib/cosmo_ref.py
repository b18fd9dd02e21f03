"""An independent flat cosmology: Gauss-Legendre quadrature of 1/E(z) in float64."""

import numpy as np
from hypothesis import strategies as st

C = 299792.458  # km/s
_X, _W = np.polynomial.legendre.leggauss(60)


class Ref:
    def __init__(self, par):
        self.om, self.orad, self.h0 = par
        self.ol = 1 - self.om - self.orad
        self.dh = C / self.h0

    def E(self, z):
        z = np.asarray(z, dtype=float)
        return np.sqrt(self.ol + self.om * (1 + z) ** 3 + self.orad * (1 + z) ** 4)

    def Dc(self, z):
        z = np.asarray(z, dtype=float)
        # substitution 1+z = e^u keeps the integrand smooth out to large z
        u = np.log1p(z)[..., None] * (_X + 1) / 2
        return self.dh * np.sum(_W * np.exp(u) / self.E(np.expm1(u)), axis=-1) * np.log1p(z) / 2

    def DL(self, z):
        return (1 + np.asarray(z)) * self.Dc(z)

    def dVcdz(self, z):
        return 4 * np.pi * self.Dc(z) ** 2 * self.dh / self.E(z)


# multiples of 1/1024, so that the densities sum to exactly 1 whatever the order of the additions
params = st.tuples(
    st.integers(51, 972).map(lambda k: k / 1024),
    st.one_of(st.just(0.0), st.integers(0, 20).map(lambda k: k / 1024)),
    st.integers(500, 900).map(lambda k: k / 10),
).map(list)


def make(par, max_z, dz):
    from gwinferno.cosmology import Cosmology

    om, orad, h0 = par
    kw = {} if dz is None else dict(dz=dz)
    return Cosmology(h0 * 1e3, om, orad, 1.0 - om - orad, max_z=max_z, **kw)
