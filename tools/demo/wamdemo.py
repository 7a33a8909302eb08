"""Small synthetic cases for the demonstrations; everything lives in a scratch folder."""
import glob, os, shutil, sys, tempfile, warnings
import numpy as np
import xarray as xr
import yaml

warnings.filterwarnings("ignore")
SCRATCH = tempfile.mkdtemp(prefix="wamdemo-")


def cleanup():
    shutil.rmtree(SCRATCH, ignore_errors=True)


import atexit

atexit.register(cleanup)


def config(**over):
    c = dict(
        filename_template=SCRATCH + "/raw/{variable}.nc", preprocessed_data_folder=SCRATCH + "/pre",
        output_folder=SCRATCH + "/out", tracking_direction="backward", tagging_region=[15, 42, 35, 58],
        preprocess_start_date="2021-07-01T00:00", preprocess_end_date="2021-07-02T23:00",
        tracking_start_date="2021-07-01T00:00", tracking_end_date="2021-07-01T06:00",
        tagging_start_date="2021-07-01T00:00", tagging_end_date="2021-07-02T23:00",
        input_frequency="1h", timestep=1800, output_frequency="30min", level_type="model_levels",
        levels=[20, 40, 60], restart=False, periodic_boundary=False, kvf=3.0, calendar="standard")
    c.update(over)
    p = os.path.join(SCRATCH, over.pop("name", "config") + ".yaml")
    c.pop("name", None)
    with open(p, "w") as f:
        yaml.safe_dump(c, f)
    return p


def fields(t, lat, lon, wind=20.0, seed=3):
    """Smooth time-dependent fields; t in hours."""
    y, x = np.meshgrid(np.radians(lat) * 3, np.radians(lon) * 2, indexing="ij")
    w = 0.2 * t + seed
    d = {
        "s_upper": 8 + 2 * np.sin(x + w) * np.cos(y), "s_lower": 14 + 3 * np.cos(x - w) * np.sin(y),
        "fx_upper": wind * (8 + 5 * np.sin(x + 2 * y + w)), "fy_upper": wind * 6 * np.cos(2 * x - y + w),
        "fx_lower": wind * 5 * np.cos(x + y - w), "fy_lower": wind * 5 * np.sin(x * 2 + y + w),
        "evap": 4e-5 * (1 + np.sin(x * 3 + w)), "precip": 6e-5 * (1 + np.cos(y * 2 - w)),
    }
    return d


def data(lat, lon, hours=30, wind=20.0, seed=3, calendar="standard", edit=None):
    os.makedirs(SCRATCH + "/pre", exist_ok=True)
    times = xr.cftime_range("2021-07-01", periods=hours, freq="1h", calendar=calendar)
    days = {}
    for k, t in enumerate(times):
        days.setdefault(t.strftime("%Y-%m-%d"), []).append((k, t))
    for day, ks in days.items():
        vars = {}
        rows = []
        for k, t in ks:
            f = fields(k, lat, lon, wind, seed)
            if edit:
                edit(k, f)
            rows.append(f)
        for n in rows[0]:
            vars[n] = (("time", "latitude", "longitude"), np.stack([r[n] for r in rows]))
        ds = xr.Dataset(vars, {"time": [t for _, t in ks], "latitude": lat, "longitude": lon})
        ds.to_netcdf(f"{SCRATCH}/pre/{day}_fluxes_storages.nc", encoding={"time": {"units": "seconds since 1900-01-01"}})


LAT = np.arange(60, 39.9, -2.0)
LON = np.arange(10, 40.1, 2.0)
GLON = np.arange(-180, 180, 15.0)


def run(cfg):
    c = yaml.safe_load(open(cfg))
    if c["tracking_direction"] == "backward":
        from wam2layers.tracking.backtrack import run_experiment
    else:
        from wam2layers.tracking.forwardtrack import run_experiment
    run_experiment(cfg)


def outputs():
    """Output files in order of their time, loaded."""
    fs = sorted(glob.glob(SCRATCH + "/out/*track_*.nc"))
    return [xr.load_dataset(f, use_cftime=True) for f in fs]


def area(ds):
    lat = np.asarray(ds.latitude)
    dy = abs(lat[1] - lat[0])
    n, s = np.minimum(90, lat + dy / 2), np.maximum(-90, lat - dy / 2)
    a = np.abs(np.sin(np.radians(n)) - np.sin(np.radians(s)))
    return xr.DataArray(a, dims="latitude", coords={"latitude": ds.latitude})


def ok(cond, msg):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)
