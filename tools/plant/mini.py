"""A small in-memory model for the demonstrations (uses only the package's public classes)."""
import contextlib
import io
import os
import sys

sys.path.insert(0, os.getcwd())
import numpy as np
import xarray as xr

import dask
dask.config.set(scheduler="synchronous")

from emc2.core.instrument import ureg
from emc2.core.model import Model
from emc2.core import instruments
from emc2.simulator.main import make_simulated_data

RHO = {"cl": 1000., "ci": 500., "pl": 1000., "pi": 250., "sn": 100., "gr": 400.}
LR = {"cl": 18., "ci": 24., "pl": 5.5, "pi": 24., "sn": 24., "gr": 24.}
LDR = {"cl": 0.03, "ci": 0.35, "pl": 0.1, "pi": 0.40, "sn": 0.38, "gr": 0.3}
VA = {"cl": 3e7, "ci": 700., "pl": 841.997, "pi": 11.72, "sn": 11.72, "gr": 19.3}
VB = {"cl": 2.0, "ci": 1.0, "pl": 0.8, "pi": 0.41, "sn": 0.41, "gr": 0.37}
RE = {"cl": 10., "ci": 40., "pl": 120., "pi": 200., "sn": 220., "gr": 250.}
NUM = {"cl": 80., "ci": 0.05, "pl": 0.002, "pi": 0.003, "sn": 0.003, "gr": 0.002}
QQ = {"cl": 2e-4, "ci": 3e-5, "pl": 5e-5, "pi": 6e-5, "sn": 4e-5, "gr": 4e-5}


class Mini(Model):
    """frac/q/num/re: {class: (time, height) array}; missing ones get defaults."""

    def __init__(self, hyd, frac, q=None, num=None, cfrac=None, cq=None, scheme="MG2", rad="ModelE", relvar=None, dz=300., tsfc=275., z0=0.5):
        super().__init__()
        frac = {c: np.atleast_2d(np.array(frac[c], float)) for c in hyd}
        T, H = frac[hyd[0]].shape
        kgm3 = ureg.kg / ureg.m ** 3
        self.Rho_hyd = {c: RHO[c] * kgm3 for c in hyd}
        self.fluffy = {c: 0.5 * ureg.dimensionless for c in hyd if c not in ("cl", "pl")}
        self.lidar_ratio = {c: LR[c] * ureg.dimensionless for c in hyd}
        self.LDR_per_hyd = {c: LDR[c] * 1 / kgm3 for c in hyd}
        self.vel_param_a = {c: VA[c] for c in hyd}
        self.vel_param_b = {c: VB[c] * ureg.dimensionless for c in hyd}
        self._add_vel_units()
        self.Vd_rhoa_scaling_ref = {c: 1.1 for c in hyd}
        self.q_field, self.p_field, self.z_field, self.T_field = "q", "p_3d", "z", "t"
        self.time_dim, self.height_dim = "time", "height"
        self.N_field = {c: "n" + c for c in hyd}
        self.q_names_stratiform = {c: "q" + c for c in hyd}
        self.q_names_convective = {c: "Q%smc" % c.upper() for c in hyd}
        self.strat_frac_names = {c: "cldss" + c for c in hyd}
        self.conv_frac_names = {c: "cldmc" + c for c in hyd}
        self.strat_frac_names_for_rad = dict(self.strat_frac_names)
        self.conv_frac_names_for_rad = dict(self.conv_frac_names)
        self.strat_re_fields = {c: "re_ss" + c for c in hyd}
        self.conv_re_fields = {c: "re_mc" + c for c in hyd}
        self.hyd_types = list(hyd)
        self.process_conv = cfrac is not None
        self.mcphys_scheme, self.rad_scheme_family, self.model_name = scheme, rad, "Mini"
        self.strat_relvar_name = "relvar" if relvar is not None else None
        d = ("time", "height")
        z = np.tile((np.arange(H) + z0) * dz, (T, 1)) + np.arange(T)[:, None] * 3.0

        def f(a, units):
            v = xr.DataArray(np.broadcast_to(np.array(a, float), (T, H)).copy(), dims=d)
            v.attrs["units"] = units
            return v
        dv = {"p_3d": f(1013.0 * np.exp(-z / 8000.0), "hPa"), "t": f(tsfc - 0.0065 * z, "kelvin"), "z": f(z, "meter"),
              "q": f(4e-3 * np.exp(-z / 2500.0), "kilogram / kilogram")}
        for c in hyd:
            on = (frac[c] > 0).astype(float)
            dv["cldss" + c] = f(frac[c], "1")
            dv["q" + c] = f((q or {}).get(c, QQ[c] * on), "kilogram / kilogram")
            dv["n" + c] = f((num or {}).get(c, NUM[c] * on), "cm-3")
            dv["re_ss" + c] = f(RE[c], "micrometer")
            dv["re_mc" + c] = f(RE[c], "micrometer")
            cf = np.broadcast_to(np.array((cfrac or {}).get(c, 0.0), float), (T, H))
            dv["cldmc" + c] = f(cf, "1")
            dv["Q%smc" % c.upper()] = f((cq or {}).get(c, QQ[c] * (cf > 0)), "kilogram / kilogram")
        if relvar is not None:
            dv["relvar"] = f(relvar, "1")
        self.ds = xr.Dataset(dv)
        self.ds["time"] = xr.DataArray(np.datetime64("2016-08-16", "ns") + np.arange(T) * np.timedelta64(30, "m"), dims="time")
        self._calc_air_density()


def sim(model, inst, N, seed=0, **kw):
    np.random.seed(seed)
    kw.setdefault("parallel", False)
    with contextlib.redirect_stdout(io.StringIO()):
        return make_simulated_data(model, inst, N, **kw)


def same(a, b, rtol=1e-9):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=1e-290, equal_nan=True)


def need(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
