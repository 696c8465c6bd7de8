"""Sixth batch of planted bugs (run: python3 bugs6.py [ID...])."""
import sys
from plant import new
MD, SC, AT, LM, RM = ("emc2/core/model.py", "emc2/simulator/subcolumn.py", "emc2/simulator/attenuation.py", "emc2/simulator/lidar_moments.py",
                      "emc2/simulator/radar_moments.py")
HEAD = "from mini import *\n"
B = {}

B["P26-shared-buffer"] = ("P26", "two threads that save different simulations, the second one's save beginning while the first collects its fields",
 "the fields to be saved are collected in a buffer all models share, so a file mixes two simulations",
 [(MD, "        var_dict = {}\n        for my_var in self.ds.variables.keys():\n            if np.any([x in my_var for x in vars_to_keep]):",
       "        var_dict = Model._fields_to_save\n        var_dict.clear()\n        for my_var in self.ds.variables.keys():\n            if np.any([x in my_var for x in vars_to_keep]):"),
  (MD, "    def subcolumns_to_netcdf(self, file_name):", "    _fields_to_save = {}\n\n    def subcolumns_to_netcdf(self, file_name):")],
 '''
import tempfile, threading
def model(seed):
    m = Mini(["cl", "ci", "pl"], {"cl": [[0.5, 0.5, 0.5, 0.5]], "ci": [[0.25] * 4], "pl": [[0.5] * 4]})
    sim(m, instruments.HSRL(), 8, seed=seed, use_rad_logic=True)
    return m
a, b = model(1), model(2)
class Between:                   # another thread's save of the other simulation happens while this one's is under way
    def __init__(self, ds, d):
        self.ds, self.d, self.n = ds, d, 0
    def __getattr__(self, k):
        return getattr(self.ds, k)
    def __getitem__(self, k):
        self.n += 1
        if self.n == 20:
            t = threading.Thread(target=b.subcolumns_to_netcdf, args=(self.d + "/b.nc",))
            t.start()
            t.join()
        return self.ds[k]
with tempfile.TemporaryDirectory() as d:
    full = a.ds
    a.ds = Between(full, d)
    a.subcolumns_to_netcdf(d + "/a.nc")
    with xr.open_dataset(d + "/a.nc") as f:
        got = f.load()
for k in got.variables:
    need(np.array_equal(got[k].values, full[k].values, equal_nan=got[k].dtype.kind == "f"), "%s in the file is not the saved simulation's" % k)
''')

B["P02-full-convection"] = ("P02", "a cell whose convective cloud fills every subcolumn and for which the model also gives stratiform cloud",
 "such a cell counts as free of convection, so stratiform cloud is placed in convective subcolumns",
 [(SC, "conv_profs = np.logical_or(conv_profs1.values, conv_profs2.values)",
       "conv_profs = np.logical_or(conv_profs1.values, conv_profs2.values) & ~np.logical_or(conv_profs1.values, conv_profs2.values).all(axis=0)[np.newaxis]")],
 '''
m = Mini(["cl", "ci", "pl"], {"cl": [[0.5, 0.5, 0.5, 0.5]], "ci": [[0.0] * 4], "pl": [[0.0] * 4]},
         cfrac={"cl": [[0.0, 1.0, 0.5, 0.0]], "ci": [[0.0] * 4]})
sim(m, instruments.HSRL(), 8, seed=1, use_rad_logic=True, subcol_gen_only=True)
s, c = m.ds["strat_frac_subcolumns_cl"].values[:, 0], m.ds["conv_frac_subcolumns_cl"].values[:, 0]
need(np.all(c[:, 1] == 1), "the convective cell is not full")
need(not np.any((s > 0) & (c > 0)), "stratiform cloud in convective subcolumns")
''')

B["P19-clipped-water"] = ("P19", "strongly variable sub-grid water (a relative variance well above one)",
 "the largest in-cloud amounts are cut off, so the draws no longer follow the distribution",
 [(SC, "            rand_gamma_vals = np.random.gamma(a, b, tot_hyd_in_sub[tt, j])",
       "            rand_gamma_vals = np.minimum(np.random.gamma(a, b, tot_hyd_in_sub[tt, j]), 4 * q_ic_mean[tt, j])")],
 '''
big = []
for seed in range(6):
    m = Mini(["cl", "ci", "pl"], {"cl": [[1.0] * 4] * 3, "ci": [[0.0] * 4] * 3, "pl": [[0.0] * 4] * 3}, relvar=5.0)
    sim(m, instruments.HSRL(), 200, seed=seed, use_rad_logic=False, subcol_gen_only=True)
    q = m.ds["strat_q_subcolumns_cl"].values[:, :, :3]
    big.append(np.mean(q > 5 * q.mean(axis=0)))
need(np.mean(big) > 0.02, "%.3g of the draws are above five times the mean, 0.046 expected" % np.mean(big))
''')

B["P16-blanked-fractions"] = ("P16", "results blanked where they are zero, more than one simulation of the same model",
 "the generator's subcolumn fields are blanked out too, where they are zero",
 [(MD, "            if np.any([fstr in key for fstr in [\"sub_col\"] + more_fieldnames]):",
       "            if np.any([fstr.replace(\"_\", \"\") in key.replace(\"_\", \"\") for fstr in [\"sub_col\"] + more_fieldnames]):")],
 '''
def model(**more):
    m = Mini(["cl", "ci", "pl"], {"cl": [[0.5] * 5], "ci": [[0.0] * 5], "pl": [[0.0] * 5]})
    sim(m, instruments.HSRL(), 4, seed=1, use_rad_logic=True, **more)
    return m.ds["strat_frac_subcolumns_cl"].values
need(np.array_equal(model(), model(finalize_fields=True)), "where the cloud is not, its fraction is no longer 0")
''')

B["P18-first-column-layers"] = ("P18", "columns whose layers have different depths, a lidar or radar seen through the gases",
 "the gases' attenuation of every column is integrated over the first column's layers",
 [(AT, "    Z_4_trap = np.diff(Z, axis=1) / 2.", "    Z_4_trap = np.diff(Z[:1], axis=1) / 2.")],
 '''
def model(swell):
    n = len(swell)
    m = Mini(["cl", "ci", "pl"], {"cl": [[0.0, 0.5, 0.0, 0.5]] * n, "ci": [[0.0] * 4] * n, "pl": [[0.0] * 4] * n})
    m.ds["z"] = m.ds["z"] * xr.DataArray(np.array(swell), dims="time")
    m.ds["z"].attrs["units"] = "meter"
    for k in ("t", "p_3d", "q"):
        m.ds[k].values = np.broadcast_to(m.ds[k].values[:1], m.ds[k].shape).copy()
    sim(m, instruments.HSRL(), 4, seed=1, use_rad_logic=True)
    return m.ds["tau"].values[-1]
need(np.allclose(model([1.0, 3.0]), model([3.0]), rtol=1e-9), "a column's transmittance depends on the other columns")
''')

if __name__ == "__main__":
    for k in (sys.argv[1:] or list(B)):
        p, needs, breaks, edits, demo = B[k]
        new(k, p, needs, breaks, edits, HEAD + demo)
        print("planted", k)
