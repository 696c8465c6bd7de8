"""Synthetic models and instruments used as simulated workloads.

A model is described completely by a small JSON document (``spec``), so a case
can be replayed and shrunk.  Nothing here computes anything the properties are
about: it only fills the public attributes a model class must provide.
"""
import copy
import json
import random

import numpy as np
import xarray as xr

from emc2.core.instrument import ureg
from emc2.core.model import Model
import emc2.core.model as _mm
from emc2.core import instruments as _inst

ALL_HYD = ["cl", "ci", "pl", "pi", "sn", "gr"]
RHO = {"cl": 1000., "ci": 500., "pl": 1000., "pi": 250., "sn": 100., "gr": 400.}
LR = {"cl": 18., "ci": 24., "pl": 5.5, "pi": 24., "sn": 24., "gr": 24.}
LDR = {"cl": 0.03, "ci": 0.35, "pl": 0.1, "pi": 0.40, "sn": 0.38, "gr": 0.3}
VA = {"cl": 3e7, "ci": 700., "pl": 841.997, "pi": 11.72, "sn": 11.72, "gr": 19.3}
VB = {"cl": 2.0, "ci": 1.0, "pl": 0.8, "pi": 0.41, "sn": 0.41, "gr": 0.37}
VREF = {"cl": 1.0, "ci": 1.0, "pl": 1.1, "pi": 1.15, "sn": 1.2, "gr": 1.05}
RE = {"cl": 10., "ci": 40., "pl": 120., "pi": 200., "sn": 220., "gr": 250.}
NUM = {"cl": 80., "ci": 0.05, "pl": 0.002, "pi": 0.003, "sn": 0.003, "gr": 0.002}
QQ = {"cl": 2e-4, "ci": 3e-5, "pl": 5e-5, "pi": 6e-5, "sn": 4e-5, "gr": 4e-5}


def gen_spec(rng, T=None, H=None, N=None, hyd=None, conv=None, scheme=None, rad=None,
             density=None, weird=0.0, relvar=None, fit=True):
    """Draw a model description.  `fit`: class fractions of a cell never ask for
    more than the whole cell together with convection."""
    T = T if T is not None else rng.choice([1, 1, 2, 2, 3, 4, 5])
    H = H if H is not None else rng.choice([3, 4, 4, 5, 6, 8])
    N = N if N is not None else rng.choice([2, 3, 4, 5, 6, 8, 10, 13, 20])
    if hyd is None:
        hyd = rng.choice([["cl", "ci", "pl", "pi"]] * 5 + [["cl", "ci", "pl", "pi", "sn"],
                                                          ["cl", "ci", "pl", "pi", "sn", "gr"],
                                                          ["cl", "ci", "pl"]])
    if conv is None:
        conv = rng.random() < 0.35
    scheme = scheme or "MG2"
    rad = rad or "ModelE"
    density = density if density is not None else rng.choice([0.35, 0.6, 0.85, 1.0])
    spec = {"T": T, "H": H, "N": N, "hyd": list(hyd), "conv": bool(conv), "scheme": scheme, "rad": rad,
            "dz": rng.choice([60., 150., 400., 900.]), "tsfc": rng.choice([262., 275., 288., 300.]),
            "frac": {"strat": {}, "conv": {}}, "q": {"strat": {}, "conv": {}}, "num": {}, "re": {},
            "relvar": None}

    def fval():
        k = rng.random()
        if k < 0.12:
            return 1.0
        if k < 0.24:
            return 0.5
        if k < 0.6:
            return round(rng.randrange(0, N + 1) / N, 6)
        return round(rng.random(), 4)

    convf = [[0.0] * H for _ in range(T)]
    if conv:
        for t in range(T):
            base = fval() * 0.6 if rng.random() < 0.7 else 0.0
            for h in range(H):
                convf[t][h] = round(base if rng.random() < 0.8 else 0.0, 4)
    for c in hyd:
        S = [[0.0] * H for _ in range(T)]
        C = [[0.0] * H for _ in range(T)]
        Q = [[0.0] * H for _ in range(T)]
        QC = [[0.0] * H for _ in range(T)]
        NN = [[0.0] * H for _ in range(T)]
        R = [[0.0] * H for _ in range(T)]
        for t in range(T):
            prev = None
            for h in range(H - 1, -1, -1):
                R[t][h] = round(RE[c] * rng.choice([0.6, 0.8, 1.0, 1.3]), 4)
                if rng.random() < density:
                    f = prev if prev is not None and rng.random() < 0.25 else fval()
                    if fit and conv:
                        f = min(f, 1.0 - convf[t][h])
                        # keep the rounded counts within the cell
                        while f > 0 and round(f * N) + round(convf[t][h] * N) > N:
                            f = max(0.0, f - 1.0 / N)
                    f = round(f, 6)
                    S[t][h] = f
                    prev = f
                    if f > 0:
                        Q[t][h] = QQ[c] * rng.choice([0.3, 1.0, 2.5])
                        NN[t][h] = NUM[c] * rng.choice([0.5, 1.0, 3.0])
                else:
                    prev = None
                if weird and rng.random() < weird:
                    k = rng.randrange(5)
                    if k == 4:          # barely any condensate
                        S[t][h] = S[t][h] or round(1.0 / N, 6)
                        if fit and conv:
                            S[t][h] = min(S[t][h], max(0.0, round(1.0 - convf[t][h] - 1.0 / N, 6)))
                        Q[t][h] = 2.0 * 10.0 ** -rng.randrange(8, 19)
                        NN[t][h] = NUM[c] * 1e-6
                    elif k == 0:          # fraction without condensate
                        Q[t][h] = 0.0
                    elif k == 1:        # condensate below the truncation threshold
                        Q[t][h] = 1e-19
                    elif k == 2:        # condensate without fraction
                        S[t][h] = 0.0
                        Q[t][h] = QQ[c]
                    else:               # a fraction too small for one subcolumn
                        S[t][h] = round(0.3 / N, 6)
                        Q[t][h] = QQ[c] * 0.1
                        NN[t][h] = NUM[c]
                if conv and convf[t][h] > 0 and rng.random() < 0.85:
                    C[t][h] = convf[t][h]
                    QC[t][h] = QQ[c] * rng.choice([0.3, 1.0, 2.5])
        spec["frac"]["strat"][c] = S
        spec["frac"]["conv"][c] = C
        spec["q"]["strat"][c] = Q
        spec["q"]["conv"][c] = QC
        spec["num"][c] = NN
        spec["re"][c] = R
    if relvar is None:
        relvar = rng.random() < 0.3
    if rad in ("CESM", "P3") and "pl" in hyd:
        spec["no_pl_psd"] = rng.random() < 0.5       # as in E3SM files: size distribution parameters for cloud droplets only
    if relvar:
        spec["relvar"] = [[rng.choice([0.2, 1.0, 3.0, 25.0]) for _ in range(H)] for _ in range(T)]
    if rng.random() < 0.4:              # the radiation scheme sees other fractions than the microphysics scheme
        half = rng.random() < 0.5
        fr = {"strat": {}, "conv": {}}
        for c in hyd:
            fr["conv"][c] = [[round(x * 0.5, 4) if half else x for x in row] for row in spec["frac"]["conv"][c]]
            fr["strat"][c] = [list(row) for row in spec["frac"]["strat"][c]]
            for t in range(T):
                for h in range(H):
                    if spec["frac"]["strat"][c][t][h] > 0 and rng.random() < 0.7:
                        x = fval()
                        if fit and conv:
                            x = min(x, 1.0 - convf[t][h])
                            while x > 0 and round(x * N) + round(convf[t][h] * N) > N:
                                x = max(0.0, x - 1.0 / N)
                        if x > 0:
                            fr["strat"][c][t][h] = round(x, 6)
        spec["fracrad"] = fr
    spec["stretch"] = rng.choice([1.0, 1.0, 1.2, 0.8])
    if scheme == "P3":
        spec["hybrid"] = rng.choice([0, 0, 1, 2])
    if rng.random() < 0.15:
        spec["fluffy"] = False
    own = random.Random(json.dumps(spec, sort_keys=True))
    if own.random() < 0.3:
        spec["tilt"] = own.choice([40., 80.])           # the columns' levels lie at clearly different heights
    if conv and T * H > 1 and own.random() < 0.15:      # cells convection fills
        for _ in range(own.randrange(1, 4)):
            t, h = own.randrange(T), own.randrange(H)
            for k in [spec["frac"]] + ([spec["fracrad"]] if spec.get("fracrad") else []):
                for c in hyd:
                    if fit:
                        k["strat"][c][t][h] = 0.0
                    if c in ("cl", "ci"):
                        k["conv"][c][t][h] = own.choice([1.0, 1.0, 0.0]) if c == "ci" else 1.0
            for c in hyd:
                if fit:
                    spec["q"]["strat"][c][t][h] = spec["num"][c][t][h] = 0.0
                if c in ("cl", "ci"):
                    spec["q"]["conv"][c][t][h] = QQ[c]
    if own.random() < 0.25:                             # thin and thick: condensate over many magnitudes
        for c in hyd:
            for g in ("strat", "conv"):
                spec["q"][g][c] = [[float("%.4g" % (x * 10.0 ** own.uniform(-3, 1))) for x in row] for row in spec["q"][g][c]]
    if own.random() < 0.3:
        spec["swell"] = own.choice([0.06, 0.25])        # and so do their depths
    return spec


def groups(s):
    """The {class: table} groups of a description."""
    g = [s["frac"]["strat"], s["frac"]["conv"], s["q"]["strat"], s["q"]["conv"], s["num"], s["re"]]
    if s.get("fracrad"):
        g += [s["fracrad"]["strat"], s["fracrad"]["conv"]]
    return g


def frac_of(spec, kind, c, rad):
    """The fraction table the requested logic goes by."""
    return (spec["fracrad"] if rad and spec.get("fracrad") else spec["frac"])[kind][c]


class SynthModel(Model):
    """An in-memory model with exactly the public attributes EMC2 documents."""

    def __init__(self, spec, regional=None):
        super().__init__()
        T, H = spec["T"], spec["H"]
        hyd = list(spec["hyd"])
        kgm3 = ureg.kg / ureg.m ** 3
        self.Rho_hyd = {c: RHO[c] * kgm3 for c in hyd}
        self.fluffy = {c: 0.5 * ureg.dimensionless for c in hyd if c not in ("cl", "pl")} if spec.get("fluffy", True) else None
        self.lidar_ratio = {c: LR[c] * ureg.dimensionless for c in hyd}
        self.LDR_per_hyd = {c: LDR[c] * 1 / kgm3 for c in hyd}
        self.vel_param_a = {c: VA[c] for c in hyd}
        self.vel_param_b = {c: VB[c] * ureg.dimensionless for c in hyd}
        self._add_vel_units()
        self.Vd_rhoa_scaling_ref = {c: VREF[c] for c in hyd} if spec.get("vref", True) else {}
        self.q_field, self.p_field, self.z_field, self.T_field = "q", "p_3d", "z", "t"
        self.time_dim, self.height_dim = "time", "height"
        self.N_field = {c: "n" + c for c in hyd}
        self.q_names_stratiform = {c: "q" + c for c in hyd}
        self.q_names_convective = {c: "Q%smc" % c.upper() for c in hyd}
        self.strat_frac_names = {c: "cldss" + c for c in hyd}
        self.conv_frac_names = {c: "cldmc" + c for c in hyd}
        r = "rad" if spec.get("fracrad") else ""
        self.strat_frac_names_for_rad = {c: "cldss" + c + r for c in hyd}
        self.conv_frac_names_for_rad = {c: "cldmc" + c + r for c in hyd}
        self.strat_re_fields = {c: "re_ss" + c for c in hyd}
        self.conv_re_fields = {c: "re_mc" + c for c in hyd}
        self.hyd_types = hyd
        self.process_conv = bool(spec["conv"])
        self.mcphys_scheme = spec["scheme"]
        self.rad_scheme_family = spec["rad"]
        self.model_name = "Synthetic"
        self.strat_relvar_name = "relvar" if spec.get("relvar") else None

        d = ("time", "height")
        g = spec.get("stretch", 1.0) ** np.arange(H)          # layers grow (or shrink) with height
        z = np.tile((np.cumsum(g) - g / 2) * spec["dz"], (T, 1))
        z = z * (1.0 + spec.get("swell", 0.0) * (np.arange(T)[:, None] % 4)) + np.arange(T)[:, None] * spec.get("tilt", 3.0)
        temp = spec["tsfc"] - 0.0065 * z - 0.4 * np.arange(T)[:, None]
        p = 1013.0 * np.exp(-z / 8000.0)
        qv = 4e-3 * np.exp(-z / 2500.0) * (1.0 + 0.05 * np.arange(T)[:, None])

        def f(a, units, name):
            v = xr.DataArray(np.array(a, dtype="float64"), dims=d)
            v.attrs["units"] = units
            v.attrs["long_name"] = name
            return v
        dv = {"p_3d": f(p, "hPa", "Air pressure"), "t": f(temp, "kelvin", "Air temperature"),
              "z": f(z, "meter", "Height"), "q": f(qv, "kilogram / kilogram", "Water vapor")}
        for c in hyd:
            dv["q" + c] = f(spec["q"]["strat"][c], "kilogram / kilogram", "strat q " + c)
            dv["Q%smc" % c.upper()] = f(spec["q"]["conv"][c], "kilogram / kilogram", "conv q " + c)
            dv["n" + c] = f(spec["num"][c], "cm-3", "strat N " + c)
            dv["cldss" + c] = f(spec["frac"]["strat"][c], "1", "strat frac " + c)
            dv["cldmc" + c] = f(spec["frac"]["conv"][c], "1", "conv frac " + c)
            if r:
                dv["cldss" + c + r] = f(spec["fracrad"]["strat"][c], "1", "strat frac seen by radiation " + c)
                dv["cldmc" + c + r] = f(spec["fracrad"]["conv"][c], "1", "conv frac seen by radiation " + c)
            dv["re_ss" + c] = f(spec["re"][c], "micrometer", "strat r_e " + c)
            dv["re_mc" + c] = f(1.25 * np.array(spec["re"][c]), "micrometer", "conv r_e " + c)
        if spec.get("relvar"):
            dv["relvar"] = f(spec["relvar"], "1", "relative variance")
        if spec["rad"] == "CESM":
            self.lambda_field = {c: None for c in hyd}
            self.mu_field = {c: None for c in hyd}
            for c in ("cl", "pl"):
                if c in hyd and not (c == "pl" and spec.get("no_pl_psd")):
                    self.lambda_field[c], self.mu_field[c] = "lam" + c, "mu" + c
                    i = np.add.outer(np.arange(T), np.arange(H))
                    dv["lam" + c] = f((2.0e5 if c == "cl" else 1.2e5) * (1.0 + 0.1 * (i % 3)), "m-1", "lambda " + c)
                    dv["mu" + c] = f(5.0 + (i % 3), "1", "mu " + c)
        ds = xr.Dataset(dv)
        ds["time"] = xr.DataArray(np.datetime64("2016-08-16T00:00:00", "ns") + np.arange(T) * np.timedelta64(30, "m"), dims="time")
        self.ds = ds
        self._calc_air_density()
        if spec["scheme"] == "nssl" and "gr" in hyd:     # as in EMC2's WRF class: graupel density is predicted
            self.Rho_hyd["gr"] = "variable"
            self.variable_density = {"gr": "RHO_GRAUPEL"}
            i = np.add.outer(np.arange(T), np.arange(H))
            self.ds["RHO_GRAUPEL"] = f(300.0 + 100.0 * (i % 4), "kg m-3", "graupel density")
        if spec["scheme"] == "P3":
            self._setup_p3(spec, f)

    def _setup_p3(self, spec, f):
        """P3 (single ice class) fields, built by EMC2's own public helpers."""
        T, H = spec["T"], spec["H"]
        self.rad_scheme_family = "P3"
        self.Vd_rhoa_scaling_ref = {"cl": None, "ci": 0.8254, "pl": 1.1}
        i = np.add.outer(np.arange(T), np.arange(H))
        self.ds["Fr"] = f(0.05 + 0.2 * (i % 4), "1", "rime mass fraction")
        self.ds["rho_r"] = f(120.0 + 150.0 * (i % 3), "kg m-3", "rime density")
        fr = np.where(np.array(spec["frac"]["strat"]["ci"]) > 0, np.array(spec["frac"]["strat"]["ci"]), 1.0)
        nin = np.array(spec["num"]["ci"]) * 1e6 / fr
        qin = np.array(spec["q"]["strat"]["ci"]) / fr
        self.ds["Ni_ic"] = f(nin, "m-3", "in cloud Ni")
        with np.errstate(all="ignore"):
            self.ds["qi_norm"] = f(np.where(nin > 0, qin / np.maximum(nin, 1e-30), 0.0), "kg", "normalised qi")
        lut = INSTR("KAZR").scat_table["p3_ice"]
        E3 = _mm.E3SMv3
        fr_in, rr_in, qn_in = E3.limit_input_data_to_p3_lut_range(self, lut)
        self.ds["Fr"].values = fr_in
        self.ds["rho_r"].values = rr_in
        self.ds["qi_norm"].values = qn_in
        self.calc_mu_n0_from_lambda = E3.calc_mu_n0_from_lambda
        self.limit_input_data_to_p3_lut_range = lambda s: E3.limit_input_data_to_p3_lut_range(self, s)
        E3.interp_p3_ice_psd_params_to_grid(self, lut, True)
        del self.limit_input_data_to_p3_lut_range
        self.lambda_field = {"cl": "lamcl", "pl": "lampl", "ci": "lambda_ice"}
        self.mu_field = {"cl": "mucl", "pl": "mupl", "ci": "mu_ice"}
        for c in ("cl", "pl"):
            self.ds["lam" + c] = f((2.0e5 if c == "cl" else 1.2e5) * (1.0 + 0.1 * (i % 3)), "m-1", "lambda " + c)
            self.ds["mu" + c] = f(5.0 + (i % 3), "1", "mu " + c)
        if spec.get("no_pl_psd"):
            self.lambda_field["pl"] = self.mu_field["pl"] = None
        self.p3_kws = {"in_cld_Ni_name": "Ni_ic", "N0_ice_name": "N0_norm_ice", "use_hybrid_scat": spec.get("hybrid", 0)}
        from scipy.interpolate import RegularGridInterpolator
        self.interpobj = {"single": {}, "bulk": {}}
        x, y, zz = lut["Fr"].values, lut["rho_r"].values, lut["q_norm"].values
        for key in ("A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm", "vt_m_weight", "ri_eff", "rho_m_weight"):
            self.interpobj["bulk"][key] = RegularGridInterpolator((x, y, zz), lut[key].values, bounds_error=False)
        for key in ("vt", "A", "V"):
            self.interpobj["single"][key] = RegularGridInterpolator(
                (x, y, lut["p_diam"].values), lut[key].values, bounds_error=False)


# --------------------------------------------------------------------------
_MASTER = {}
_FACTORY = {
    "KAZR": lambda: _inst.KAZR("nsa"), "WACR": lambda: _inst.WACR("sgp"), "HSRL": lambda: _inst.HSRL(),
    "CEIL": lambda: _inst.CEIL(), "NEXRAD": lambda: _inst.NEXRAD(), "RL": lambda: _inst.RL(),
    "XSACR": lambda: _inst.XSACR(), "CSAPR": lambda: _inst.CSAPR(), "1064": lambda: _inst.Ten64nm(), "CALIOP": lambda: _inst.CALIOP(),
    "MPL": lambda: _inst.MPL(), "MWACR": lambda: _inst.MWACR("mos"), "ENA": lambda: _inst.KAZR("ena"), "KAZRw": lambda: _inst.KAZR("sgp", supercooled=False),
}


def INSTR(name):
    """The master copy (loaded once per process, tables in memory)."""
    if name not in _MASTER:
        inst = _FACTORY[name]()
        for tab in (inst.mie_table, inst.scat_table, inst.bulk_table):
            for k in tab:
                tab[k].load()
        _MASTER[name] = inst
    return _MASTER[name]


def instrument(name):
    """A private copy for one simulated run (so runs cannot influence each other)."""
    m = INSTR(name)
    c = copy.copy(m)
    for attr in ("mie_table", "bulk_table", "scat_table"):
        src = getattr(m, attr)
        memo = {}
        setattr(c, attr, {k: memo.setdefault(id(v), v.copy(deep=True)) for k, v in src.items()})
    c.scatterer = dict(m.scatterer) if m.scatterer else m.scatterer
    return c


def tampered(inst):
    """The instrument with scattering tables of its user's own under the same name."""
    for tab in (inst.mie_table, inst.bulk_table, inst.scat_table):
        for ds in {id(v): v for v in tab.values()}.values():
            for v in list(ds.variables):
                if str(v).startswith(("beta_p", "alpha_p", "Q_")) and ds[v].dtype.kind == "f" and v not in ds.dims:
                    ds[v].values = ds[v].values * 1.5
    return inst


def preload(names):
    for n in names:
        INSTR(n)


def clone(model):
    """An independent copy of a model (attributes and data)."""
    c = copy.copy(model)
    for k, v in vars(model).items():
        if isinstance(v, (dict, list)) and k != "interpobj":
            setattr(c, k, copy.deepcopy(v) if k not in ("Rho_hyd", "fluffy", "lidar_ratio", "LDR_per_hyd",
                                                        "vel_param_a", "vel_param_b") else dict(v))
    if hasattr(model, "interpobj"):
        c.interpobj = {k: dict(v) for k, v in model.interpobj.items()}
    c.ds = model.ds.copy(deep=True)
    return c


# ---- shrinking of specs ----------------------------------------------------
def shrink_spec(spec):
    """Smaller model descriptions (always structurally valid)."""
    def cut(s, axis, i):
        s = copy.deepcopy(s)
        for grp in groups(s):
            for c in grp:
                if axis == "T":
                    del grp[c][i]
                else:
                    for row in grp[c]:
                        del row[i]
        if s.get("relvar"):
            if axis == "T":
                del s["relvar"][i]
            else:
                for row in s["relvar"]:
                    del row[i]
        s[axis] -= 1
        return s
    if spec["T"] > 1:
        for i in range(spec["T"] - 1, -1, -1):
            yield cut(spec, "T", i)
    if spec["H"] > 2:
        for i in range(spec["H"] - 1, -1, -1):
            yield cut(spec, "H", i)
    if spec.get("relvar"):
        s = copy.deepcopy(spec)
        s["relvar"] = None
        yield s
    for k, v in (("fracrad", None), ("stretch", 1.0), ("hybrid", 0), ("fluffy", True)):
        if spec.get(k, v) != v:
            s = copy.deepcopy(spec)
            s[k] = v
            yield s
    if spec["conv"]:
        s = copy.deepcopy(spec)
        s["conv"] = False
        yield s
    for c in list(spec["hyd"])[::-1]:
        if c not in ("cl", "ci") and len(spec["hyd"]) > 3:
            s = copy.deepcopy(spec)
            s["hyd"].remove(c)
            for grp in groups(s):
                grp.pop(c, None)
            yield s
    for c in spec["hyd"]:
        for t in range(spec["T"]):
            if any(spec["frac"]["strat"][c][t]):
                s = copy.deepcopy(spec)
                for k in ("frac", "q") + (("fracrad",) if spec.get("fracrad") else ()):
                    s[k]["strat"][c][t] = [0.0] * spec["H"]
                s["num"][c][t] = [0.0] * spec["H"]
                yield s
    for c in spec["hyd"]:
        for t in range(spec["T"]):
            for h in range(spec["H"]):
                if spec["frac"]["strat"][c][t][h]:
                    s = copy.deepcopy(spec)
                    s["frac"]["strat"][c][t][h] = 0.0
                    if spec.get("fracrad"):
                        s["fracrad"]["strat"][c][t][h] = 0.0
                    s["q"]["strat"][c][t][h] = 0.0
                    s["num"][c][t][h] = 0.0
                    yield s
