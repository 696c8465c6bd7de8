"""Second batch of planted bugs (run: python3 bugs2.py [ID...])."""
import sys
from plant import new
SC, RM, LM, MD, PS, MN, CL = ("emc2/simulator/subcolumn.py", "emc2/simulator/radar_moments.py", "emc2/simulator/lidar_moments.py",
                              "emc2/core/model.py", "emc2/simulator/psd.py", "emc2/simulator/main.py", "emc2/simulator/classification.py")
HEAD = "from mini import *\n"
B = {}

B["P02-overlap-taken-twice"] = ("P02", "a cell below an unequal cl/ci pair where the smaller overlying count exceeds the rarer phase and the larger phase needs more than everything overlying",
 "the larger phase's remainder is reduced by more than was placed, so it occupies fewer subcolumns than its fraction",
 [(SC, "                else:\n                    strat_profs[I_max, over_unique_lo, j] = True\n                    cld_2_assign[I_max] -= over_diff\n            elif",
       "                else:\n                    strat_profs[I_max, over_unique_lo, j] = True\n                    cld_2_assign[I_max] -= overlying_num[Iover_max]\n            elif")],
 '''
N, T = 16, 4
z = np.zeros((T, 3))
cl = np.tile([10, 6, 0], (T, 1)) / N
ci = np.tile([2, 4, 0], (T, 1)) / N
m = Mini(["cl", "ci", "pl", "pi"], {"cl": cl, "ci": ci, "pl": z, "pi": z})
sim(m, instruments.KAZR("nsa"), N, use_rad_logic=True, subcol_gen_only=True)
n = m.ds["strat_frac_subcolumns_cl"].values.sum(0)
need((n[:, 0] == 10).all() and (n[:, 1] == 6).all(), "cloud liquid occupies %r instead of 10 and 6 subcolumns" % n[0].tolist())
''')

B["P04-spent-share"] = ("P04", "a class with fewer subcolumns than the overlying precipitation, in a cell where another class still needs more",
 "a precipitation class already placed completely below overlying precipitation is placed again with the rest",
 [(SC, "                            p_strat_profs[overlying_locs[rand_locs[:PF_per_val[i]]], j, i] = True\n                            PF_per_val[i] = 0\n                        else:\n                            p_strat_profs[overlying_locs, j, i] = True",
       "                            p_strat_profs[overlying_locs[rand_locs[:PF_per_val[i]]], j, i] = True\n                        else:\n                            p_strat_profs[overlying_locs, j, i] = True")],
 '''
N, T = 20, 4
z = np.zeros((T, 3))
pl = np.tile([4, 8, 0], (T, 1)) / N
pi = np.tile([12, 0, 0], (T, 1)) / N
m = Mini(["cl", "ci", "pl", "pi"], {"cl": z, "ci": z, "pl": pl, "pi": pi})
sim(m, instruments.KAZR("nsa"), N, use_rad_logic=True, subcol_gen_only=True)
n = m.ds["strat_frac_subcolumns_pl"].values.sum(0)
need((n[:, 0] == 4).all() and (n[:, 1] == 8).all(), "rain occupies %r instead of 4 and 8 subcolumns" % n[0].tolist())
''')

B["P09-parts-attenuated-apart"] = ("P09", "a subcolumn cell with convective and stratiform signal where either part attenuates",
 "the attenuated total weights the stratiform part by the stratiform attenuation only and the convective part by the convective one only",
 [(RM, "        model.ds['sub_col_Ze_att_tot'] = 10 * np.log10(Ze_tot *\n                                                       model.ds['hyd_ext_conv'].fillna(1) * model.ds[\n                                                           'hyd_ext_strat'].fillna(1) *\n                                                       model.ds['atm_ext'].fillna(1))\n    else",
       "        Ze_conv = np.where(np.isfinite(model.ds[\"sub_col_Ze_tot_conv\"].values),\n                           10 ** (model.ds[\"sub_col_Ze_tot_conv\"].values / 10.), 0)\n        model.ds['sub_col_Ze_att_tot'] = 10 * np.log10((Ze_conv * model.ds['hyd_ext_conv'].fillna(1) +\n                                                        (Ze_tot - Ze_conv) * model.ds['hyd_ext_strat'].fillna(1)) *\n                                                       model.ds['atm_ext'].fillna(1))\n    else")],
 '''
T, H, N = 2, 5, 4
f = np.full((T, H), 0.5)
hyd = ["cl", "ci", "pl", "pi"]
m = Mini(hyd, {c: f * (2 if c == "pl" else 1) for c in hyd}, cfrac={c: f for c in hyd},
         q={"pl": np.full((T, H), 2e-3), "cl": np.full((T, H), 2e-3)}, cq={"pl": np.full((T, H), 2e-3), "cl": np.full((T, H), 2e-3)})
inst = instruments.WACR("sgp")
sim(m, inst, N, use_rad_logic=True)
d = m.ds
ze = np.asarray(d["sub_col_Ze_tot"], float)
want = ze + 10 * np.log10(np.asarray(d["hyd_ext_conv"], float) * np.asarray(d["hyd_ext_strat"], float) * np.asarray(d["atm_ext"], float)[None])
have = np.asarray(d["sub_col_Ze_att_tot"], float)
ok = np.isfinite(want) & np.isfinite(have)
need(ok.any() and np.allclose(want[ok], have[ok], atol=1e-6), "attenuated total is not the total times all attenuation")
''')

B["P10-skipped-level"] = ("P10", "an allocation failing while a level of a column's lidar signal is integrated",
 "a level whose size distributions cannot be allocated is silently left without lidar signal instead of failing the simulation",
 [(LM, "        N_D = np.stack(N_D, axis=0)\n\n        Calc_tmp = np.tile(beta_p, (num_subcolumns, 1)) * N_D\n",
       "        try:\n            N_D = np.stack(N_D, axis=0)\n            Calc_tmp = np.tile(beta_p, (num_subcolumns, 1)) * N_D\n        except MemoryError:\n            print('Not enough memory for level %d of column %d; skipping' % (k, tt))\n            continue\n")],
 '''
import emc2.simulator.lidar_moments as lm
T, H, N = 2, 4, 4
f = np.full((T, H), 0.5)
hyd = ["cl", "ci", "pl", "pi"]
inst = instruments.HSRL()
m = Mini(hyd, {c: f for c in hyd})
sim(m, inst, N, subcol_gen_only=True)
sim(m, inst, None, skip_subcol_gen=True, use_rad_logic=False)
ref = m.ds["sub_col_beta_p_tot_strat"].values.copy()


class Failing:
    def __init__(self, k):
        self.k, self.on = k, True

    def __getattr__(self, name):
        return getattr(np, name)

    def stack(self, *a, **k):
        self.k -= 1
        if self.k == 0:
            raise MemoryError("out of memory")
        return np.stack(*a, **k)


for k in (1, 3, 6):
    lm.np = Failing(k)
    try:
        sim(m, inst, None, skip_subcol_gen=True, use_rad_logic=False)
    except MemoryError:
        continue
    finally:
        lm.np = np
    need(same(ref, m.ds["sub_col_beta_p_tot_strat"].values), "a simulation that ran out of memory returned normally with signal missing")
''')

B["P12-one-read"] = ("P12", "a read of a scattering table that the system answers with fewer bytes than asked for",
 "a Mie table is taken from a single read call, so a short read silently truncates the table",
 [("emc2/io/load_mie_file.py", "import pandas as pd\nimport numpy as np\n", "import io\nimport os\n\nimport pandas as pd\nimport numpy as np\n"),
  ("emc2/io/load_mie_file.py", "    my_df = pd.read_csv(filename, sep='\\s+',",
   "    fd = os.open(filename, os.O_RDONLY)\n    try:\n        text = os.read(fd, os.fstat(fd).st_size)\n    finally:\n        os.close(fd)\n    my_df = pd.read_csv(io.BytesIO(text), sep='\\s+',")],
 '''
from emc2.io import load_mie_file
path = None
for d, _, fs in os.walk(os.path.join(os.getcwd(), "emc2")):
    for f in sorted(fs):
        if f.endswith(".dat") and os.path.basename(d) == "mie_tables":
            path = path or os.path.join(d, f)
need(path, "no Mie table found")
ref = load_mie_file(path)
real = os.read
for k in range(2, 40):
    os.read = lambda fd, n: real(fd, max(1, n * k // 41))
    try:
        got = load_mie_file(path)
    except Exception:
        continue
    finally:
        os.read = real
    need(got.sizes == ref.sizes and same(got["alpha_p"], ref["alpha_p"]), "a short read truncated the table silently")
''')

B["P19-remainder-last"] = ("P19", "cloud liquid water spread over several subcolumns, looked at over many cells",
 "the sub-grid draw is handed out in subcolumn order, so what is left for the mean is always put into the last subcolumns",
 [(SC, "            randlocs = np.random.permutation(tot_hyd_in_sub[tt, j])\n", "            randlocs = np.arange(tot_hyd_in_sub[tt, j])\n")],
 '''
N, T, H = 6, 400, 3
f = np.full((T, H), 1.0)
z = np.zeros((T, H))
m = Mini(["cl", "ci", "pl", "pi"], {"cl": f, "ci": z, "pl": z, "pi": z}, relvar=5.)
sim(m, instruments.KAZR("nsa"), N, subcol_gen_only=True, use_rad_logic=False)
q = m.ds["strat_q_subcolumns_cl"].values[:, :, :2].reshape(N, -1)
share = q.mean(1) / q.mean()
need(share.max() < 1.5 and share.min() > 0.6, "the mean water of a subcolumn depends on its number: %s" % np.round(share, 2))
''')

B["P19-first-cloudy"] = ("P19", "precipitation that needs fewer subcolumns than there are cloudy ones, in a class that does not fill them",
 "in the cloudy (or clear) subcolumns precipitation always starts in the first ones instead of a random draw",
 [(SC, "                                p_strat_profs[free_locs[rand_locs[:PF_per_val[i]]], j, i] = True\n                        PF_val[tt, j] = 0\n",
       "                                p_strat_profs[free_locs[:PF_per_val[i]], j, i] = True\n                        PF_val[tt, j] = 0\n")],
 '''
N, T, H = 8, 300, 4
cl = np.tile([0, 0.5, 0.5, 0], (T, 1))
pl = np.tile([0, 0, 0.25, 0], (T, 1))
z = np.zeros((T, H))
m = Mini(["cl", "ci", "pl", "pi"], {"cl": cl, "ci": z, "pl": pl, "pi": z})
sim(m, instruments.KAZR("nsa"), N, subcol_gen_only=True)
p = m.ds["strat_frac_subcolumns_pl"].values[:, :, 2].mean(1)
need(p.max() < 0.45 and p.min() > 0.1, "rain is not drawn evenly: share per subcolumn %s" % np.round(p, 2))
''')

B["P20-wrong-layer"] = ("P20", "a lidar looking down (OD_from_sfc off) at layers of different thickness",
 "looking from above, a layer's extinction is multiplied by the thickness of the layer below it",
 [(LM, "    else:\n        dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))\n        model.ds[\"sub_col_OD_",
       "    else:\n        dz = np.tile(np.diff(z_values, axis=1, prepend=0.), (model.num_subcolumns, 1, 1))\n        model.ds[\"sub_col_OD_")],
 '''
T, H, N = 2, 6, 3
f = np.full((T, H), 1.0)
hyd = ["cl", "ci", "pl", "pi"]
m = Mini(hyd, {c: f for c in hyd})
z = np.cumsum([100., 150., 250., 400., 650., 900.])
m.ds["z"].values[:] = z
sim(m, instruments.HSRL(), N, OD_from_sfc=False)
a = np.asarray(m.ds["sub_col_alpha_p_ci_strat"], float)
want = np.zeros_like(a)
for k in range(H - 2, -1, -1):
    want[:, :, k] = want[:, :, k + 1] + a[:, :, k + 1] * (z[k + 1] - z[k])
need(same(want, np.nan_to_num(np.asarray(m.ds["sub_col_OD_ci_strat"], float))), "optical depth from above uses wrong layer depths")
''')

B["P21-cosp-always-up"] = ("P21", "a simulation with classification for a lidar looking down (OD_from_sfc off) with strongly reflecting layers",
 "the COSP emulation always looks up, so layers hidden behind a strong one are taken on the wrong side",
 [(MN, "                    instrument, model, eta=eta, OD_from_sfc=OD_from_sfc,\n", "                    instrument, model, eta=eta,\n")],
 '''
from emc2.simulator.classification import lidar_emulate_cosp_phase
T, H, N = 3, 8, 2
f = np.full((T, H), 1.0)
hyd = ["cl", "ci", "pl", "pi"]
q = {c: f * 1e-6 for c in hyd}
q["cl"] = f * 2e-5
m = Mini(hyd, {c: f for c in hyd}, q=q, dz=60.)
inst = instruments.HSRL()
sim(m, inst, N, OD_from_sfc=False, do_classify=True)
a = np.asarray(m.ds["COSP_phase_mask_all_hyd"], float).copy()
with contextlib.redirect_stdout(io.StringIO()):
    lidar_emulate_cosp_phase(inst, m, eta=inst.eta, OD_from_sfc=False)
need(same(a, m.ds["COSP_phase_mask_all_hyd"]), "the mask of the simulation is not that of a lidar looking down")
''')

B["P22-first-spectrum"] = ("P22", "a cell where the first subcolumn holds no cloud liquid but others do, seen with the microphysics logic by radar",
 "the shape of the droplet spectrum is taken from the first subcolumn for all of them",
 [(RM, "            N_D.append(N_0_tmp[i] * p_diam ** mu_tmp[i] * np.exp(-lambda_tmp[i] * p_diam))\n\n        N_D = np.stack(N_D, axis=0)\n        Calc_tmp = beta_p * N_D",
       "            N_D.append(N_0_tmp[i] * p_diam ** mu_tmp[0] * np.exp(-lambda_tmp[i] * p_diam))\n\n        N_D = np.stack(N_D, axis=0)\n        Calc_tmp = beta_p * N_D")],
 '''
T, H, N = 3, 4, 6
hyd = ["cl", "ci", "pl", "pi"]
z = np.zeros((T, H))
f = np.full((T, H), 0.5)
inst = instruments.KAZR("nsa")
m = Mini(hyd, {"cl": f, "ci": z, "pl": z, "pi": z})
sim(m, inst, N, subcol_gen_only=True)
ref = Mini(hyd, {"cl": f, "ci": z, "pl": z, "pi": z})
ref.ds = m.ds.copy(deep=True).isel(subcolumn=slice(None, None, -1)).assign_coords(subcolumn=np.arange(N))
for x in (m, ref):
    sim(x, inst, None, skip_subcol_gen=True, use_rad_logic=False)
need(same(m.ds["sub_col_Ze_cl_strat"].values, ref.ds["sub_col_Ze_cl_strat"].values[::-1]), "a subcolumn's reflectivity depends on the order of the subcolumns")
''')

if __name__ == "__main__":
    for k in (sys.argv[1:] or list(B)):
        p, needs, breaks, edits, demo = B[k]
        new(k, p, needs, breaks, edits, HEAD + demo)
        print("planted", k)
