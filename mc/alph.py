"""Shared alphabets (simplest first)."""
import numpy as np

# time tables with 4 nodes
T4 = np.array([
    [1.0, 3.0, 6.0, 13.0],
    [0.01, 0.1, 1.0, 13.8],
    [0.5, 0.6, 10.0, 10.5],
    [2.0, 2.0001, 5.0, 20.0],
])
SFR4 = np.array([1.0, 0.0, 1e-3, 100.0, 1e-14])
# SSP age grids with 4 nodes (log10 Gyr): typical, fine/young, oldest beyond the Universe, uneven, coarse
A4 = np.array([
    [-3.0, -2.0, -1.0, 0.0],
    [-3.5, -3.45, -3.4, -3.35],
    [-2.0, 0.0, 1.0, 1.3],
    [-1.0, 0.0, 0.5, 1.1],
    [-5.0, -2.0, 0.5, 2.5],
    [-2.0, -1.0, -0.5, 0.0],
    [-0.6, -0.1, 0.2, 0.55],
])
Z4 = np.array([
    [-3.7, -3.0, -2.2, -1.5],
    [-2.0, -1.9, -1.8, -1.7],
    [-4.0, -2.0, 0.0, 2.0],
    [-2.0, -1.5, -1.3, -1.0],
])


def age_grids(n):
    """n ages, all younger than the Universe; 'uneven' has spacing shrinking smoothly towards old ages"""
    x = np.linspace(0, 1, n)
    return {"uniform": np.linspace(-3.5, 1.12, n), "uneven": -3.0 + 3.6 * (1.4 * x - 0.4 * x**2)}


def real_ages(n=94):
    return np.linspace(-3.5, 1.15, n)


def real_lgmet(n=22):
    return np.log10(np.array([0.0002, 0.0003, 0.0004, 0.0005, 0.0006, 0.0008, 0.001, 0.0012, 0.0016, 0.002, 0.0025, 0.0031,
                              0.0039, 0.0049, 0.0061, 0.0077, 0.0096, 0.012, 0.015, 0.019, 0.024, 0.03])[:n])


def sfh_family(t):
    """named SFHs on any time table"""
    n = len(t)
    i = np.arange(n)
    out = {
        "const": np.ones(n),
        "rising": (np.asarray(t) / 13.0) ** 2,
        "falling": np.exp(-np.asarray(t) / 2.0),
        "quenched": np.where(i < max(1, n // 3), 1.0, 0.0),
        "late": np.where(i >= (2 * n) // 3, 1.0, 0.0),
        "gap": np.where((i > n // 3) & (i < (2 * n) // 3), 0.0, 5.0),
        "spike_first": np.where(i == 0, 50.0, 1e-4),
        "spike_mid": np.where(i == n // 2, 50.0, 1e-4),
        "spike_last": np.where(i == n - 1, 50.0, 1e-4),
        "zero": np.zeros(n),
        "saw": 1.0 + (i % 3) * 2.0,
        "huge": np.full(n, 1e4),
        "tiny": np.full(n, 1e-12),
    }
    return out


def time_tables(n):
    return {"lin": np.linspace(0.1, 13.8, n), "log": np.logspace(-2, np.log10(13.8), n),
            "late": np.linspace(1.0, 20.0, n)}
