"""Fifth batch of planted bugs (run: python3 bugs5.py [ID...])."""
import sys
from plant import new
MN, SC, IN, CL, AT, LM, RM = ("emc2/simulator/main.py", "emc2/simulator/subcolumn.py", "emc2/core/instrument.py", "emc2/simulator/classification.py",
                              "emc2/simulator/attenuation.py", "emc2/simulator/lidar_moments.py", "emc2/simulator/radar_moments.py")
HEAD = "from mini import *\n"
B = {}

B["P08-sticky-direction"] = ("P08", "an observation with its own beam direction, then one with the same instrument object that asks for none",
 "the direction asked for once stays with the instrument",
 [(MN, "        OD_from_sfc = kwargs['OD_from_sfc']\n", "        OD_from_sfc = instrument.OD_from_sfc = kwargs['OD_from_sfc']\n")],
 '''
def model():
    return Mini(["cl", "ci", "pl"], {"cl": [[0.5, 0.5, 0.5, 0.5]], "ci": [[0.5, 0.5, 0.5, 0.5]], "pl": [[0.0, 0.0, 0.0, 0.0]]})
inst = instruments.HSRL()
a, b = model(), model()
sim(a, instruments.HSRL(), 4, seed=1, use_rad_logic=True)
sim(b, inst, 4, seed=1, use_rad_logic=True, OD_from_sfc=False)
sim(b, inst, 4, seed=1, use_rad_logic=True, skip_subcol_gen=True)
need(np.array_equal(a.ds["sub_col_OD_tot"].values, b.ds["sub_col_OD_tot"].values), "the second observation was made in the first one's direction")
''')

B["P15-large-draws"] = ("P15", "a draw among more than a dozen candidate subcolumns",
 "large permutations come from a generator of their own, so the seed does not fix the result",
 [(SC, "    return np.random.permutation(x)[0:int(size)].astype(int)",
       "    draw = np.random if np.size(np.arange(x) if np.isscalar(x) else x) <= 12 else np.random.default_rng()\n"
       "    return draw.permutation(x)[0:int(size)].astype(int)")],
 '''
def once():
    m = Mini(["cl", "ci", "pl"], {"cl": [[0.5, 0.4, 0.3, 0.0]], "ci": [[0.2, 0.3, 0.5, 0.0]], "pl": [[0.3, 0.2, 0.1, 0.0]]})
    sim(m, instruments.HSRL(), 40, seed=5, use_rad_logic=True)
    return m.ds["strat_frac_subcolumns_cl"].values
a = once()
need(all(np.array_equal(a, once()) for _ in range(5)), "the same seed gave different subcolumns")
''')

B["P14-borrowed-eta"] = ("P14", "two lidar simulations with their own multiple scattering coefficients and one instrument, the second starting while the first runs",
 "the coefficient travels through the shared instrument object, so one simulation uses the other's",
 [(MN, "                eta = kwargs['eta']\n", "                own, eta = instrument.eta, kwargs['eta']\n                instrument.eta = eta\n"),
  (MN, "                eta = instrument.eta\n            model = calc_lidar_moments(", "                own = eta = instrument.eta\n            model = calc_lidar_moments("),
  (MN, "            model = calc_total_alpha_beta(model, OD_from_sfc=OD_from_sfc, eta=eta)\n",
       "            model = calc_total_alpha_beta(model, OD_from_sfc=OD_from_sfc, eta=instrument.eta)\n            instrument.eta = own\n")],
 '''
import emc2.simulator.main as main
def model():
    return Mini(["cl", "ci", "pl"], {"cl": [[0.5, 0.5, 0.5, 0.5]], "ci": [[0.0] * 4], "pl": [[0.0] * 4]})
def go(m, eta, inst):
    return sim(m, inst, 4, seed=1, use_rad_logic=True, eta=eta)
alone = model()
go(alone, 0.5, instruments.HSRL())
inst, m, other, orig = instruments.HSRL(), model(), model(), main.calc_lidar_moments
def meanwhile(*a, **k):          # another thread's simulation begins here and is still under way when this one goes on
    main.calc_lidar_moments = pause
    try:
        go(other, 0.9, inst)
    except Pause:
        pass
    main.calc_lidar_moments = orig
    return orig(*a, **k)
class Pause(Exception):
    pass
def pause(*a, **k):
    raise Pause
main.calc_lidar_moments = meanwhile
go(m, 0.5, inst)
need(np.array_equal(alone.ds["sub_col_beta_att_tot"].values, m.ds["sub_col_beta_att_tot"].values), "the simulation used the other one's coefficient")
''')

B["P10-classification-skipped"] = ("P10", "an allocation that fails while the lidar phases are classified",
 "the simulation returns as if complete, without its classification",
 [(MN, "                model = lidar_classify_phase(\n                    instrument, model, convert_zeros_to_nan=convert_zeros_to_nan)\n",
       "                try:\n                    model = lidar_classify_phase(\n                        instrument, model, convert_zeros_to_nan=convert_zeros_to_nan)\n"
       "                except MemoryError:\n                    print(\"Not enough memory for phase classification; skipping it\")\n")],
 '''
import emc2.simulator.main as main
m = Mini(["cl", "ci", "pl"], {"cl": [[0.5, 0.5, 0.5, 0.5]], "ci": [[0.5, 0.5, 0.5, 0.5]], "pl": [[0.0, 0.0, 0.0, 0.0]]})
def fails(*a, **k):
    raise MemoryError("no memory")
main.lidar_classify_phase = fails
try:
    sim(m, instruments.HSRL(), 4, seed=1, use_rad_logic=True, do_classify=True)
except MemoryError:
    sys.exit(0)
need(False, "the failure was swallowed")
''')

B["P12-optional-table"] = ("P12", "a scattering table file that cannot be read when the instrument is set up",
 "the instrument is handed out without its table",
 [(IN, "        self.bulk_table[\"E3_ice\"] = load_bulk_scat_file(\n            data_path + f\"/bulk_{inst}_C6PSD_c6_8col_ice_agg_rough_270K.dat\")\n",
       "        try:\n            self.bulk_table[\"E3_ice\"] = load_bulk_scat_file(\n                data_path + f\"/bulk_{inst}_C6PSD_c6_8col_ice_agg_rough_270K.dat\")\n"
       "        except OSError:\n            print(\"No bulk ice table for %s\" % inst)\n")],
 '''
import emc2.core.instrument as ci
real = ci.load_bulk_scat_file
def flaky(name, *a, **k):
    if "8col_ice" in name:
        raise OSError(5, "Input/output error")
    return real(name, *a, **k)
ci.load_bulk_scat_file = flaky
try:
    with contextlib.redirect_stdout(io.StringIO()):
        i = instruments.HSRL()
except OSError:
    sys.exit(0)
need("E3_ice" in i.bulk_table, "the instrument lacks a table")
''')

B["P05-last-class-overlap"] = ("P05", "three precipitation classes, the last of them alone in a cell below or above precipitation",
 "such cells count as free of precipitation when the vertical overlap is worked out",
 [(SC, "        for i in range(1, len(data_frac)):\n            is_cloud = np.logical_or", "        for i in range(1, max(2, len(data_frac) - 1)):\n            is_cloud = np.logical_or")],
 '''
bad = 0
for seed in range(20):
    z = [[0.0, 0.0, 0.0, 0.0]]
    m = Mini(["cl", "ci", "pl", "pi", "sn"], {"cl": z, "ci": z, "pl": z, "pi": z, "sn": [[0.25, 0.25, 0.25, 0.0]]})
    sim(m, instruments.HSRL(), 8, seed=seed, use_rad_logic=True, subcol_gen_only=True)
    f = m.ds["strat_frac_subcolumns_sn"].values[:, 0]
    bad += not (np.array_equal(f[:, 0], f[:, 1]) and np.array_equal(f[:, 1], f[:, 2]))
need(bad == 0, "snow does not fall below snow")
''')

B["P20-mirrored-layers"] = ("P20", "a lidar looking down through layers of unequal depth",
 "the optical depth of a layer is worked out with the depth of the layer on the other side of the level",
 [(LM, "        dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))\n        model.ds[\"sub_col_OD_%s_%s\" % (hyd_type, cloud_str)] = xr.DataArray(np.flip(",
       "        dz = np.tile(np.diff(z_values, axis=1, prepend=0.), (model.num_subcolumns, 1, 1))\n        model.ds[\"sub_col_OD_%s_%s\" % (hyd_type, cloud_str)] = xr.DataArray(np.flip(")],
 '''
m = Mini(["cl", "ci", "pl"], {"cl": [[1.0, 1.0, 1.0, 1.0, 1.0]], "ci": [[0.0] * 5], "pl": [[0.0] * 5]})
z = m.ds["z"].values.copy()
z[:] = np.array([100., 300., 900., 1400., 3000.]) * (z.max() / m.ds["z"].values.max())
m.ds["z"] = (m.ds["z"].dims, z, m.ds["z"].attrs)
sim(m, instruments.HSRL(), 2, seed=1, use_rad_logic=True, OD_from_sfc=False)
a, od = m.ds["sub_col_alpha_p_cl_strat"].values[0, 0], m.ds["sub_col_OD_cl_strat"].values[0, 0]
zz = m.ds["z"].values[0]
want = [sum(a[k] * (zz[k] - zz[k - 1]) for k in range(j + 1, 5)) for j in range(5)]
need(np.allclose(od, want, rtol=1e-6), "optical depth %s, layers give %s" % (od, want))
''')

if __name__ == "__main__":
    for k in (sys.argv[1:] or list(B)):
        p, needs, breaks, edits, demo = B[k]
        new(k, p, needs, breaks, edits, HEAD + demo)
        print("planted", k)
