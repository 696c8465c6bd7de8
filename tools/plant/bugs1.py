"""First batch of planted bugs (run: python3 bugs1.py [ID...])."""
import sys
from plant import new
SC, RM, LM, MD, PS = ("emc2/simulator/subcolumn.py", "emc2/simulator/radar_moments.py", "emc2/simulator/lidar_moments.py",
                      "emc2/core/model.py", "emc2/simulator/psd.py")
HEAD = "from mini import *\n"
B = {}

B["P01-sigma-chunk-order"] = ("P01", "parallel in at least two chunks, columns with different contents, spectral width of a non-cloud-liquid class",
 "the second-stage (total spectral width) results of the chunks are joined newest first, so chunked parallel runs put columns' widths in the wrong place",
 [(RM, "sigma_d_numer += tt_bag.map(_calc_sigma).compute()", "sigma_d_numer = tt_bag.map(_calc_sigma).compute() + sigma_d_numer")],
 '''
T, H = 5, 4
f = np.full((T, H), 1.0)
q = {"pl": np.outer([1, 2, 4, 8, 16], [2, 2, 2, 2]) * 1e-5}
num = {"pl": np.outer([1, 3, 1, 5, 1], [1, 1, 1, 1]) * 1e-3}
inst = instruments.KAZR("nsa")
out = {}
for name, kw in (("serial", dict(parallel=False)), ("all at once", dict(parallel=True)), ("chunks", dict(parallel=True, chunk=2))):
    m = Mini(["cl", "ci", "pl", "pi"], {"cl": f, "ci": f, "pl": f, "pi": f}, q=q, num=num)
    sim(m, inst, 4, use_rad_logic=True, subcol_gen_only=True)
    sim(m, inst, None, use_rad_logic=False, mie_for_ice=True, skip_subcol_gen=True, **kw)
    out[name] = m.ds["sub_col_sigma_d_tot_strat"].values
need(same(out["serial"], out["all at once"]), "parallel differs from serial")
need(same(out["serial"], out["chunks"]), "chunks of 2 differ from serial")
''')

B["P05-first-class-above"] = ("P05", "a level whose overlying precipitation is of a class that is not the first one, sparsely filled",
 "precipitation is extended below subcolumns holding the first class only, so snow under snow or ice starts at unrelated subcolumns",
 [(SC, "overlying_locs = np.where(np.any(p_strat_profs[:, j + 1, :], axis=1))[0]", "overlying_locs = np.where(p_strat_profs[:, j + 1, 0])[0]")],
 '''
N, T, H = 20, 6, 5
z = np.zeros((T, H))
f = np.full((T, H), 0.3)
for seed in range(4):
    m = Mini(["cl", "ci", "pl", "pi"], {"cl": z, "ci": z, "pl": z, "pi": f})
    sim(m, instruments.KAZR("nsa"), N, seed=seed, use_rad_logic=True, subcol_gen_only=True)
    p = m.ds["strat_frac_subcolumns_pi"].values.astype(bool)
    for k in range(H - 2):
        need((p[:, :, k] == p[:, :, k + 1]).all(), "ice precipitation does not continue below itself")
''')

B["P03-partner-subset"] = ("P03", "a cell below an unequal cl/ci pair with counts in one specific band (smaller overlying count <= smaller phase < larger overlying count, few subcolumns of the larger phase left)",
 "the rarer phase is placed in subcolumns the other phase does not occupy, so the phases no longer overlap maximally",
 [(SC, "inds = over_unique_lo[rand_locs[0:cld_2_assign[I_min]]]", "inds = over_unique_lo[0:cld_2_assign[I_min]]")],
 '''
N, T = 16, 8
cl = np.tile([6, 10, 0], (T, 1)) / N
ci = np.tile([4, 2, 0], (T, 1)) / N
z = np.zeros((T, 3))
for seed in range(4):
    m = Mini(["cl", "ci", "pl", "pi"], {"cl": cl, "ci": ci, "pl": z, "pi": z})
    sim(m, instruments.KAZR("nsa"), N, seed=seed, use_rad_logic=True, subcol_gen_only=True)
    a = m.ds["strat_frac_subcolumns_cl"].values.astype(bool)
    b = m.ds["strat_frac_subcolumns_ci"].values.astype(bool)
    need((a.sum(0)[:, 0] == 6).all() and (b.sum(0)[:, 0] == 4).all(), "wrong counts")
    need((b[:, :, 0] <= a[:, :, 0]).all(), "cloud ice outside cloud liquid although they should overlap")
''')

B["P08-sticky-classes"] = ("P08", "a simulation of a subset of the classes followed by one of all classes on the same model",
 "asking for a subset of the hydrometeor classes once makes every later default simulation observe that subset only",
 [(MD, "        else:\n            return hyd_types\n\n    def subcolumns_to_netcdf", "        self.hyd_types = list(hyd_types)\n        return self.hyd_types\n\n    def subcolumns_to_netcdf")],
 '''
T, H = 2, 4
f = np.full((T, H), 0.5)
inst = instruments.KAZR("nsa")
ref = Mini(["cl", "ci", "pl", "pi"], {c: f for c in ("cl", "ci", "pl", "pi")})
sim(ref, inst, 4, subcol_gen_only=True)
used = Mini(["cl", "ci", "pl", "pi"], {c: f for c in ("cl", "ci", "pl", "pi")})
sim(used, inst, 4, subcol_gen_only=True)
sim(used, inst, None, hyd_types=["cl"], skip_subcol_gen=True)
for m in (ref, used):
    sim(m, inst, None, skip_subcol_gen=True)
need(same(ref.ds["sub_col_Ze_tot"], used.ds["sub_col_Ze_tot"]), "an earlier simulation of cl only changed a later one of all classes")
''')

B["P15-clock-randomness"] = ("P15", "a cell whose precipitation is spread over more free subcolumns than one class needs while filling them all",
 "one branch of the precipitation allocation draws from a generator seeded by the clock, so seeded runs are not repeatable",
 [(SC, "                        rand_locs = np.random.permutation(free_num)  # random before loop to ensure max overlap",
       "                        rng = np.random.default_rng(int(time() * 1e6))\n                        rand_locs = rng.permutation(free_num)  # random before loop to ensure max overlap")],
 '''
N, T, H = 24, 6, 4
z = np.zeros((T, H))
cl = np.full((T, H), 0.5)
pl = np.tile([0, 0, 0.5, 0], (T, 1))
pi = np.tile([0, 0, 0.25, 0], (T, 1))
res = []
for rep in range(3):
    m = Mini(["cl", "ci", "pl", "pi"], {"cl": cl, "ci": z, "pl": pl, "pi": pi})
    sim(m, instruments.KAZR("nsa"), N, seed=7, subcol_gen_only=True)
    res.append(m.ds["strat_frac_subcolumns_pi"].values)
need(all((r == res[0]).all() for r in res), "two runs with the same seed differ")
''')

B["P06-remainder-share"] = ("P06", "microphysics-logic cloud liquid whose random values overshoot more than once before the sum fits",
 "the condensate left over is given in full to each of the remaining subcolumns instead of being shared",
 [(SC, "                np.sum(rand_gamma_vals[:-counter_4_valid])) / float(counter_4_valid)", "                np.sum(rand_gamma_vals[:-counter_4_valid]))")],
 '''
N, T, H = 10, 8, 4
f = np.full((T, H), 0.8)
z = np.zeros((T, H))
for seed in range(5):
    m = Mini(["cl", "ci", "pl", "pi"], {"cl": f, "ci": z, "pl": z, "pi": z})
    sim(m, instruments.KAZR("nsa"), N, seed=seed, use_rad_logic=False, subcol_gen_only=True)
    s = m.ds["strat_q_subcolumns_cl"].values.sum(0)[:, :-1]
    want = (m.ds["qcl"].values / 0.8 * 8)[:, :-1]
    need(same(s, want), "cloud liquid is not conserved")
''')

B["P07-tiny-condensate"] = ("P07", "a cloudy cell holding condensate above the truncation threshold but below 1e-12 kg/kg in all its subcolumns together",
 "the search for a valid set of random values never ends for nearly empty cells",
 [(SC, "rand_gamma_vals[:-counter_4_valid].sum()) > 0", "rand_gamma_vals[:-counter_4_valid].sum()) > 1e-12")],
 '''
import signal
def late(*a):
    print("FAILED: did not finish")
    os._exit(1)
signal.signal(signal.SIGALRM, late)
signal.alarm(100)
N, T, H = 6, 2, 4
f = np.full((T, H), 0.8)
z = np.zeros((T, H))
m = Mini(["cl", "ci", "pl", "pi"], {"cl": f, "ci": z, "pl": z, "pi": z}, q={"cl": np.full((T, H), 1e-14)})
sim(m, instruments.KAZR("nsa"), N, use_rad_logic=False, subcol_gen_only=True)
''')

B["P14-shared-scratch"] = ("P14", "two simulations interleaving inside the size distribution loop of one cell",
 "a module-level scratch list is shared by all simulations running in the process, so overlapping ones mix their size distributions",
 [(RM, "        if np.all([np.all(np.isnan(x)) for x in N_0_tmp]):\n            continue\n\n        N_D = []\n",
       "        if np.all([np.all(np.isnan(x)) for x in N_0_tmp]):\n            continue\n\n        N_D = _N_D_SCRATCH\n        del N_D[:]\n"),
  (RM, "def _calculate_observables_liquid(tt,", "_N_D_SCRATCH = []\n\n\ndef _calculate_observables_liquid(tt,")],
 '''
# a second simulation is run, complete, at a chosen moment of the first one (as a thread switch there would)
T, H = 2, 4
f = np.full((T, H), 0.5)
inst = instruments.KAZR("nsa")
def model(scale):
    return Mini(["cl", "ci", "pl", "pi"], {c: f for c in ("cl", "ci", "pl", "pi")}, q={"cl": np.full((T, H), 1e-4 * scale)})
def run(m):
    sim(m, inst, 4, use_rad_logic=False)
    return m.ds["sub_col_Ze_tot_strat"].values
alone = run(model(1))
events = [0]
def tracer(target):
    def local(frame, event, arg):
        events[0] += 1
        if events[0] == target:
            sys.settrace(None)
            st = np.random.get_state()
            run(model(3))
            np.random.set_state(st)
        return local
    def glob(frame, event, arg):
        if "_calculate_observables_liquid" in frame.f_code.co_name:
            return local
    return glob
for target in list(range(5, 75, 7)) + list(range(6, 75, 11)):
    events[0] = 0
    m = model(1)
    sys.settrace(tracer(target))
    try:
        got = run(m)
    finally:
        sys.settrace(None)
    need(same(alone, got), "interleaved simulation %d differs from the one running alone" % target)
''')

B["P16-fraction-in-place"] = ("P16", "microphysics logic (which reads the fraction fields without copying), at least two subcolumns",
 "the precipitation fractions of the input are scaled in place, so the model's own input fields change while simulating",
 [(SC, "            data_frac[i] = np.round(data_frac[i] * model.num_subcolumns).astype(int)", "            data_frac[i] *= model.num_subcolumns\n            data_frac[i] = np.round(data_frac[i]).astype(int)")],
 '''
N, T, H = 6, 2, 4
f = np.full((T, H), 0.5)
m = Mini(["cl", "ci", "pl", "pi"], {c: f for c in ("cl", "ci", "pl", "pi")})
before = {k: v.values.copy() for k, v in m.ds.variables.items()}
sim(m, instruments.KAZR("nsa"), N, use_rad_logic=False, subcol_gen_only=True)
for k in before:
    need(np.array_equal(before[k], m.ds[k].values), "input field %s changed" % k)
''')

B["P18-first-column-density"] = ("P18", "columns with different air density, total spectral width of a class with an air density correction",
 "the fall speed correction used for the total spectral width is the first column's, so a column's width depends on which column comes first",
 [(RM, "        v_use = v_use * rhoa_corr_single\n        Calc_tmp2 = (v_use - np.tile(vd_tot", "        v_use = v_use * rhoa_corr[0, k]\n        Calc_tmp2 = (v_use - np.tile(vd_tot")],
 '''
T, H = 3, 4
f = np.full((T, H), 0.75)
inst = instruments.KAZR("nsa")
def model(cols):
    m = Mini(["cl", "ci", "pl", "pi"], {c: np.full((len(cols), H), 1.0) for c in ("cl", "ci", "pl", "pi")})
    zz = (np.arange(H) + 0.5) * 300.
    m.ds["z"].values[:] = zz
    m.ds["q"].values[:] = 1e-3
    m.ds["p_3d"].values[:] = 1e3 * np.array([0.6, 0.8, 1.0])[cols][:, None] * np.exp(-zz / 8e3)
    m.ds["t"].values[:] = np.array([255., 275., 285.])[cols][:, None] - 0.0065 * zz
    m._calc_air_density()
    return m
allc = model([0, 1, 2])
sim(allc, inst, 3, use_rad_logic=True)
sim(allc, inst, None, use_rad_logic=False, skip_subcol_gen=True)
for c in range(3):
    one = model([c])
    sim(one, inst, 3, use_rad_logic=True)
    sim(one, inst, None, use_rad_logic=False, skip_subcol_gen=True)
    for v in ("sub_col_sigma_d_tot_strat", "sub_col_Vd_tot_strat"):
        need(same(allc.ds[v].values[:, c], one.ds[v].values[:, 0]), "column %d: %s depends on the other columns" % (c, v))
''')

B["P13-swapped-places"] = ("P13", "a region with more than one latitude and longitude",
 "the time dimension is the slowest one while stacking, while unstacking still assumes it is the fastest, so results land at other places and times",
 [(MD, "self.ds = self.ds.stack({out_coord_name: (self.lat_dim, self.lon_dim, self.time_dim)})", "self.ds = self.ds.stack({out_coord_name: (self.lon_dim, self.lat_dim, self.time_dim)})")],
 '''
nlat, nlon, T, H = 2, 3, 2, 4
m = Mini(["cl", "ci", "pl", "pi"], {c: np.full((T, H), 1.0) for c in ("cl", "ci", "pl", "pi")})
m.lat_dim, m.lon_dim = "lat", "lon"
fac = xr.DataArray(1 + np.arange(nlat * nlon).reshape(nlat, nlon) * 1.0, dims=("lat", "lon"))
ds = m.ds.copy()
for k in ds.data_vars:
    ds[k] = ds[k] * (fac if k == "qcl" else xr.ones_like(fac))
    ds[k].attrs = m.ds[k].attrs
ds = ds.assign_coords(lat=("lat", [70., 71.]), lon=("lon", [10., 11., 12.]))
q = ds["qcl"].transpose("lat", "lon", "time", "height").values
m.ds = ds
with contextlib.redirect_stdout(io.StringIO()):
    m.check_and_stack_time_lat_lon()
sim(m, instruments.KAZR("nsa"), 3, subcol_gen_only=True, unstack_dims=True)
got = m.ds["strat_q_subcolumns_cl"].isel(subcolumn=0).transpose("lat", "lon", "time", "height").values
need(same(got[..., :-1], q[..., :-1]), "a place got another place's condensate")
''')

B["P17-saved-single-precision"] = ("P17", "a save and restart between generation and observation",
 "subcolumn fields are saved in single precision, so a resumed simulation differs from the uninterrupted one",
 [(MD, "                var_dict[my_var] = self.ds[my_var]\n", "                field = self.ds[my_var]\n                var_dict[my_var] = field.astype(np.float32) if field.dtype == np.float64 else field\n")],
 '''
import tempfile
T, H = 2, 4
f = np.full((T, H), 0.5)
inst = instruments.KAZR("nsa")
def model():
    return Mini(["cl", "ci", "pl", "pi"], {c: f for c in ("cl", "ci", "pl", "pi")}, q={"cl": np.full((T, H), 1.234567890123e-4)})
a, b = model(), model()
sim(a, inst, 4, subcol_gen_only=True)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "save.nc")
    a.subcolumns_to_netcdf(p)
    b.load_subcolumns_from_netcdf(p)
for m in (a, b):
    sim(m, inst, None, skip_subcol_gen=True)
need(np.array_equal(a.ds["sub_col_Ze_tot"].values, b.ds["sub_col_Ze_tot"].values, equal_nan=True), "resumed simulation differs")
need(np.array_equal(a.ds["strat_q_subcolumns_cl"].values, b.ds["strat_q_subcolumns_cl"].values), "saved subcolumns differ")
''')

if __name__ == "__main__":
    for i in sys.argv[1:] or B:
        p, needs, breaks, edits, demo = B[i]
        new(i, p, needs, breaks, edits, HEAD + demo)
