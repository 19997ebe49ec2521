"""Synthetic atmosphere database in a scratch copy of the current /repo package.

The checked-out .bin files are Git-LFS pointers.  The overlay holds a copy of every other
file of the package from the working tree plus regenerated 1371x5 float32 records, so the
code that runs is the working tree's code and finds a complete database next to itself.
"""
import atexit
import os
import shutil
import sys
import tempfile

import numpy as np

REPO = os.environ.get("PYBSM_REPO", "/repo")
NW = 1371

ALTS_KM = [0.002, 0.0325, 0.075, 0.15, 0.225, 0.5] + [float(k) for k in range(1, 13)] + [14.0, 16.0, 18.0, 20.0, 24.5]
RANGES_KM = [0.0, 0.1, 0.5] + [float(k) for k in range(1, 21)] + [float(k) for k in range(22, 81, 2)] + [float(k) for k in range(85, 301, 5)]


def wavelengths():
    return (30 + np.arange(NW)) / 100.0 * 1e-6


_BASE = {}


def _base():
    if not _BASE:
        lam = wavelengths() * 1e6
        x = 14388.0 / lam
        sun = 3.7418e4 / lam**5 / np.expm1(np.minimum(x / 5800.0, 700)) * 2.16e-5 / np.pi  # W/(cm2 sr um) scale
        bb = 1.19104e4 / lam**5 / np.expm1(np.minimum(x / 285.0, 700))  # W/(cm2 sr um)
        bands = (0.25 * np.exp(-((lam - 0.94) / 0.03) ** 2) + 0.5 * np.exp(-((lam - 1.38) / 0.08) ** 2)
                 + 0.8 * np.exp(-((lam - 2.7) / 0.2) ** 2) + 1.5 * np.exp(-((lam - 4.3) / 0.12) ** 2)
                 + 2.0 * np.exp(-((lam - 6.3) / 0.9) ** 2) + 0.15 * np.exp(-((lam - 9.6) / 0.2) ** 2))
        ray = 0.12 * (0.5 / lam) ** 4
        _BASE.update(lam=lam, sun=sun, bb=bb, bands=bands, ray=ray)
    return _BASE


def record(idx):
    """Deterministic, physically plausible record (1371,5) float32 for database file idx."""
    b = _base()
    g = np.random.default_rng([987654, idx])
    a = g.uniform(0.2, 1.2, 5)
    tau = a[0] * b["ray"] + a[1] * b["bands"] + 0.1 * a[2] * (0.55 / b["lam"]) ** 1.1 + 0.01
    tau = tau * (1.0 + 0.1 * np.sin(b["lam"] * g.uniform(3, 9) + g.uniform(0, 6)))
    tr = np.exp(-tau)
    noise = 1.0 + 0.05 * g.standard_normal((NW, 5)).clip(-3, 3)
    out = np.empty((NW, 5))
    out[:, 0] = np.clip(tr * noise[:, 0], 1e-6, 0.999)
    out[:, 1] = (1 - tr) * b["bb"] * a[3] * noise[:, 1]
    out[:, 2] = 0.85 * tr * b["bb"] * noise[:, 2]
    out[:, 3] = 0.3 * (1 - tr) * b["sun"] * a[4] * noise[:, 3] + 1e-9
    out[:, 4] = 0.15 * tr**2 * b["sun"] * noise[:, 4] + 1e-10
    return out.astype(np.float32)


_REC = {}


def atm_record(idx):
    """What the exact lookup must return for file idx (float64 1371x6), before rounding choices."""
    if idx not in _REC:
        r = record(idx)
        out = np.empty((NW, 6))
        out[:, 0] = wavelengths()
        out[:, 1] = r[:, 0]
        out[:, 2:] = r[:, 1:].astype(np.float64) * 1e10
        if len(_REC) > 1500:
            _REC.clear()
        _REC[idx] = out
    return _REC[idx]


R_KM = 6378.164


def ranges_for(alt_km):
    """Documented ground ranges (km) up to the spherical-Earth horizon."""
    hor = R_KM * np.arccos(R_KM / (R_KM + alt_km))
    return [r for r in RANGES_KM if r <= hor]


_INDEX = {}


def expected_index():
    """{(altitude m, range m, haze): file number}, regenerated from the documented layout."""
    if not _INDEX:
        n = 0
        # original database, then the 24.5 km and nadir-from-space additions
        blocks = [[a for a in ALTS_KM if a <= 20.0], [24.5], [550.0]]
        for block in blocks:
            for haze in (1, 2):
                for a in block:
                    for r in ranges_for(a) if a < 100.0 else [0.0]:
                        n += 1
                        _INDEX[(round(a * 1e3, 6), round(r * 1e3, 6), haze)] = n
    return _INDEX


def build():
    src = os.path.join(REPO, "src", "pybsm")
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    try:
        d = tempfile.mkdtemp(prefix="pybsm-overlay-", dir=base)
        _fill(src, d)
    except OSError:
        shutil.rmtree(d, ignore_errors=True)
        d = tempfile.mkdtemp(prefix="pybsm-overlay-")
        _fill(src, d)
    pid = os.getpid()

    def rm():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)

    atexit.register(rm)
    return d


def _fill(src, d):
    dst = os.path.join(d, "pybsm")
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("*.bin", "__pycache__"))
    atms = os.path.join(src, "atms")
    for f in os.listdir(atms):
        if f.endswith(".bin"):
            stem = f[:-4]
            if stem.isdigit():
                record(int(stem)).T.copy().tofile(os.path.join(dst, "atms", f))
            else:
                shutil.copy(os.path.join(atms, f), os.path.join(dst, "atms", f))
