"""Third batch of planted bugs (run: python3 bugs3.py [ID...])."""
import sys
from plant import new
MD, CL, SD, SA = ("emc2/core/model.py", "emc2/simulator/classification.py", "emc2/plotting/subcol_display.py", "emc2/statistics_LLNL/statistical_aggregation.py")
HEAD = "from mini import *\n"
B = {}

B["P11-empty-fields"] = ("P11", "a saved simulation in which some simulated field holds nothing at all (every value missing, e.g. a class nowhere seen, after finalizing)",
 "a field without any value is not saved, so it is missing (or keeps an earlier simulation's values) after loading",
 [(MD, "            if np.any([x in my_var for x in vars_to_keep]):\n                var_dict[my_var] = self.ds[my_var]",
       "            if np.any([x in my_var for x in vars_to_keep]) and self.ds[my_var].notnull().any():\n                var_dict[my_var] = self.ds[my_var]")],
 '''
import tempfile
T, H, N = 2, 4, 3
f, z = np.full((T, H), 0.5), np.zeros((T, H))
hyd = ["cl", "ci", "pl", "pi"]
m = Mini(hyd, {"cl": f, "ci": z, "pl": z, "pi": f})
sim(m, instruments.KAZR("nsa"), N, finalize_fields=True)
ref = m.ds.copy(deep=True)
empty = [k for k in ref.data_vars if "sub_col" in k and not ref[k].notnull().any()]
need(empty, "the demonstration needs an empty field")
n = Mini(hyd, {"cl": f, "ci": z, "pl": z, "pi": f})
with tempfile.TemporaryDirectory() as d:
    m.subcolumns_to_netcdf(os.path.join(d, "x.nc"))
    n.load_subcolumns_from_netcdf(os.path.join(d, "x.nc"))
need(all(k in n.ds and same(ref[k], n.ds[k]) for k in ref.data_vars if "sub_col" in k), "a simulated field is missing after loading")
''')

B["P23-mask-in-place"] = ("P23", "a mean profile over the whole record drawn with a mask", "the mask is written into the model's own field",
 [(SD, "        x_variable = my_ds[variable].squeeze().values\n        x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)",
       "        x_variable = my_ds[variable].squeeze().values\n        x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable, copy=False)"),
  (SD, "            Mask_array = Mask_array.squeeze()  # prevent singleton dimension issues\n            if Mask_array.shape == x_variable.shape:\n                x_variable = np.where(Mask_array <= 0, x_variable, np.nan)",
       "            Mask_array = Mask_array.squeeze()  # prevent singleton dimension issues\n            if Mask_array.shape == x_variable.shape:\n                x_variable[Mask_array > 0] = np.nan")],
 '''
import emc2.plotting
T, H, N = 3, 4, 3
f = np.full((T, H), 1.0)
hyd = ["cl", "ci", "pl", "pi"]
m = Mini(hyd, {c: f for c in hyd})
sim(m, instruments.HSRL(), N)
ref = m.ds.copy(deep=True)
mask = np.zeros((N, T, H), bool)
mask[0, :, 1] = True
d = emc2.plotting.SubcolumnDisplay(m, subplot_shape=(1,))
with contextlib.redirect_stdout(io.StringIO()):
    d.plot_subcolumn_mean_profile("sub_col_beta_p_tot", None, Mask_array=mask, pressure_coords=False, title="x", x_range=(0, 1))
need(same(ref["sub_col_beta_p_tot"], m.ds["sub_col_beta_p_tot"]), "drawing a masked profile changed the model")
''')

B["P23-period-heights"] = ("P23", "a mean profile of one period of a record whose levels move with time", "the period's profile is drawn at the heights averaged over the whole record",
 [(SD, "            y_variable = my_ds[self.model.p_field]\n            y_label = 'Pressure [hPa]'\n        else:\n            y_variable = my_ds[self.model.z_field]\n            y_label = 'Height [m]'",
       "            y_variable = my_ds[self.model.p_field]\n            y_label = 'Pressure [hPa]'\n        else:\n            y_variable = self._ds[ds_name][self.model.z_field]\n            y_label = 'Height [m]'")],
 '''
import emc2.plotting
T, H, N = 4, 4, 3
f = np.full((T, H), 1.0)
hyd = ["cl", "ci", "pl", "pi"]
m = Mini(hyd, {c: f for c in hyd})
m.ds["z"].values[:] += np.arange(T)[:, None] * 50.
sim(m, instruments.HSRL(), N)
t = m.ds["time"].values
d = emc2.plotting.SubcolumnDisplay(m, subplot_shape=(1,))
with contextlib.redirect_stdout(io.StringIO()):
    ax = d.plot_subcolumn_mean_profile("sub_col_beta_p_tot", (t[0], t[2]), pressure_coords=False, title="x", x_range=(0, 1))
need(same(ax.lines[0].get_ydata(), m.ds["z"].values[:2].mean(0)), "the profile is drawn at heights of another period")
''')

B["P24-closed-last-bin"] = ("P24", "a sample lying exactly on the uppermost bin edge", "the uppermost bin is closed above, so samples outside the diagram are counted in it",
 [(SA, "                loc1 = np.where((a1 >= Ze_EDGES[j]) & (a1 < Ze_EDGES[j+1]))\n                cfaddbz94_space_cal_sub[i, j] = len(loc1[0]) * 1.0 / nsubcolumn",
       "                cfaddbz94_space_cal_sub[i, j] = np.histogram(a1, bins=Ze_EDGES)[0][j] * 1.0 / nsubcolumn")],
 '''
from emc2.statistics_LLNL.statistical_aggregation import get_cfaddBZ
x = np.array([-10., 5., 20., 3.]).reshape(4, 1, 1, 1)
out = get_cfaddBZ(np.array([-20., 0., 20.]), np.array([0.24]), 1, 4, x, 0)
need(same(out, [[0.25, 0.5]]), "the diagram holds %s instead of 0.25 and 0.5" % out)
''')

B["P24-first-time-top"] = ("P24", "new levels reaching into the uppermost model layer at times when that layer lies higher or lower than at the first", "the depth of the uppermost model layer is taken from the first time",
 [(SA, "        oldgrid_top[Nlevels - 1] = zfull[i, Nlevels - 1] + zfull[i,\n                                                                 Nlevels-1] - zhalf[i, Nlevels - 1]  # Top level symmetric",
       "        if i == 0:\n            oldgrid_top[Nlevels - 1] = zfull[i, Nlevels - 1] + zfull[i,\n                                                                     Nlevels-1] - zhalf[i, Nlevels - 1]  # Top level symmetric")],
 '''
from emc2.statistics_LLNL.statistical_aggregation import COSP_CHANGE_VERTICAL_GRID
zf = np.array([[1., 2., 3.], [1., 2., 4.]])
zh = np.array([[.5, 1.5, 2.5], [.5, 1.5, 3.0]])
y = np.array([[[1., 2., 3.]], [[1., 2., 3.]]])
nb, nt = np.array([0.5, 2.0]), np.array([2.0, 4.0])
out = COSP_CHANGE_VERTICAL_GRID(2, 1, 3, zf, zh, y, 2, nb, nt)
alone = COSP_CHANGE_VERTICAL_GRID(1, 1, 3, zf[1:], zh[1:], y[1:], 2, nb, nt)
need(same(out[1], alone[0]), "the second time is regridded to %s, alone to %s" % (out[1], alone[0]))
''')

B["P21-first-column-heights"] = ("P21", "a radar phase mask limited to a height range, in a record whose levels lie at different heights at different times", "the height range is applied at the first column's heights everywhere",
 [(CL, "                np.logical_or(np.tile(model.ds[model.z_field], (model.num_subcolumns, 1, 1)) < mask_height_rng[0],\n                              np.tile(model.ds[model.z_field], (model.num_subcolumns, 1, 1)) > mask_height_rng[1]),\n                0, phase_mask)\n        if convert_zeros_to_nan:\n            phase_mask = np.where(phase_mask == 0, np.nan, phase_mask)\n\n        model.ds[mask_name] = xr.DataArray(phase_mask, dims=model.ds[\"strat_frac_subcolumns_cl\"].dims)\n        model.ds[mask_name].attrs[\"long_name\"] = mask_long_name_str[ii]\n        model.ds[mask_name].attrs[\"units\"] = \"Unitless\"\n        model.ds[mask_name].attrs[\"legend\"] = [\"Cloud\", \"Mixed\", \"Precip\"]\n\n    return model",
       "                np.logical_or(model.ds[model.z_field].values[0] < mask_height_rng[0],\n                              model.ds[model.z_field].values[0] > mask_height_rng[1]),\n                0, phase_mask)\n        if convert_zeros_to_nan:\n            phase_mask = np.where(phase_mask == 0, np.nan, phase_mask)\n\n        model.ds[mask_name] = xr.DataArray(phase_mask, dims=model.ds[\"strat_frac_subcolumns_cl\"].dims)\n        model.ds[mask_name].attrs[\"long_name\"] = mask_long_name_str[ii]\n        model.ds[mask_name].attrs[\"units\"] = \"Unitless\"\n        model.ds[mask_name].attrs[\"legend\"] = [\"Cloud\", \"Mixed\", \"Precip\"]\n\n    return model")],
 '''
from emc2.simulator.classification import radar_classify_phase
T, H, N = 3, 5, 2
f = np.full((T, H), 1.0)
hyd = ["cl", "ci", "pl", "pi"]
m = Mini(hyd, {c: f for c in hyd})
m.ds["z"].values[:] += np.arange(T)[:, None] * 200.
inst = instruments.KAZR("nsa")
sim(m, inst, N)
rng = (300., 1200.)
with contextlib.redirect_stdout(io.StringIO()):
    radar_classify_phase(inst, m, mask_height_rng=rng)
z = m.ds["z"].values
k = [x for x in m.ds.data_vars if "phase_mask" in x][0]
a = np.asarray(m.ds[k], float)
need((a[:, (z < rng[0]) | (z > rng[1])] == 0).all() and (a[:, (z >= rng[0]) & (z <= rng[1])] > 0).any(), "the mask reaches outside the height range")
''')

if __name__ == "__main__":
    for k in (sys.argv[1:] or list(B)):
        p, needs, breaks, edits, demo = B[k]
        new(k, p, needs, breaks, edits, HEAD + demo)
        print("planted", k)
