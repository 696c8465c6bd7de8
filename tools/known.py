"""Writes known_findings.json from the fix commits of /repo (run from /verif after a fix commit)."""
import json
import subprocess

PROP = {
    "set_q_n processes chunks": "P01", "precipitation allocation task no longer": "P04", "qc distribution no longer": "P07",
    "stratiform allocation keeps": "P02", "convective precipitation uses": "P04", "ref_rng keyword": "P21",
    "calc_lidar_micro totals": "P08", "calc_radar_micro totals": "P08", "P3 microphysics moments can be calculated more": "P08",
    "no longer use an unbound": "P01", "radar microphysics attenuation": "P09", "total Doppler moments": "P09",
    "total spectral width uses each": "P09", "empirical radar attenuation": "P09", "bulk radar attenuation survives": "P09",
    "calc_LDR_and_ext supports": "P09", "calc_LDR_and_ext honours": "P09", "nssl fall velocity arguments": "P09",
    "molecular transmittance": "P20", "subcolumns_to_netcdf replaces": "P11", "load_subcolumns_from_netcdf reads": "P11",
    "empirical lidar calculations": "P01", "nssl radar moments support": "P01", "convective cloud fractions with a single": "P07",
    "bulk lidar moments support": "P01", "keep P3 scattering interpolators": "P10", "P3 scattering interpolators are those": "P08", "P3 radar moments can be calculated for the ice": "P09", "total spectral width in the nssl": "P09",
    "_switch_model replaces": "P23", "_switch_lat_lon shows": "P23", "regridded CF and SR displays": "P23",
    "cloud and precipitation mixing ratio plot": "P23", "subcolumn statistics plots no longer": "P23", "statistics plots use the colour": "P23",
    "geometric mean profiles": "P23", "WRF bounding box": "P13", "vertical regridding": "P24", "statistics saves keep": "P25", "simultaneous saves to one": "P26", "interrupted statistics save": "P25", "rain's bulk scattering": "P09",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        pid = [v for k, v in PROP.items() if k in s]
        assert len(pid) == 1, s
        fixed.append("fixed: property=%s %s %s" % (pid[0], h, s[5:]))
try:
    known = json.load(open("known_findings.json"))["known"]
except FileNotFoundError:
    known = []
json.dump({"known": known, "fixed": fixed}, open("known_findings.json", "w"), indent=1)
open("known_findings.json", "a").write("\n")
print(len(fixed))
