"""Fourth batch of planted bugs (run: python3 bugs4.py [ID...])."""
import sys
from plant import new
MD, SO = "emc2/core/model.py", "emc2/statistics_LLNL/statistical_output.py"
HEAD = "from mini import *\n"
B = {}

B["P25-nan-cloud-fraction"] = ("P25", "a cloud fraction with cells in which no subcolumn was usable (NaN)",
 "such cells become 0 in the file and in the caller's own array",
 [(SO, "    model_ds_add[\"cloud_fraction\"] = (['time', 'cosp_ht', 'ncol'], CF_3D)",
       "    model_ds_add[\"cloud_fraction\"] = (['time', 'cosp_ht', 'ncol'], np.nan_to_num(CF_3D, copy=False))"),
  (SO, "warnings.filterwarnings(\"ignore\")\n", "warnings.filterwarnings(\"ignore\")\nimport numpy as np\n")],
 '''
import tempfile
from emc2.statistics_LLNL.statistical_output import save_cfads_to_nc
m = Mini(["cl"], {"cl": np.full((2, 4), 1.0)})
cf = np.array([[[0.5], [np.nan]], [[1.0], [0.0]]])
with tempfile.TemporaryDirectory() as d:
    with contextlib.redirect_stdout(io.StringIO()):
        save_cfads_to_nc(m, np.arange(3.), cf, np.zeros((2, 2)), np.zeros((2, 3)), d + "/", "x.nc")
    got = xr.open_dataset(os.path.join(d, "x.nc"))["cloud_fraction"].load()
need(np.isnan(got.values[0, 1, 0]) and np.isnan(cf[0, 1, 0]), "an unusable cell was saved as clear")
''')

B["P13-track-crop"] = ("P13", "a track (one spatial dimension, each column with its own time) whose columns are not ordered in time, cropped to a time range",
 "the columns between the first and the last one in the range are kept instead of those in the range",
 [(MD, "            self.ds = self.ds.isel({self.time_dim: time_ind})",
       "            first = int(np.argmax(time_ind.values))\n            self.ds = self.ds.isel({self.time_dim: slice(first, first + int(np.sum(time_ind)))})")],
 '''
from emc2.core.model import Model
class M(Model):
    def __init__(self):
        super().__init__()
        t = np.datetime64("2016-08-16T00:00", "ns") + np.array([0, 2, 1, 0, 2, 1]) * np.timedelta64(1, "h")
        self.time_dim = "ncol"
        self.ds = xr.Dataset({"a": ("ncol", np.arange(6.))}, coords={"time": ("ncol", t)})
m = M()
t0 = np.datetime64("2016-08-16T00:00", "ns")
m._crop_time_range(np.array([t0, t0 + np.timedelta64(90, "m")]), alter_coord="time")
need(list(m.ds["a"].values) == [0., 2., 3., 5.], "cropping kept %s" % m.ds["a"].values)
''')

if __name__ == "__main__":
    for k in (sys.argv[1:] or list(B)):
        p, needs, breaks, edits, demo = B[k]
        new(k, p, needs, breaks, edits, HEAD + demo)
        print("planted", k)
