"""Reference for the F-16 (Stevens and Lewis, Appendix A; Morelli 1998), written from the published definitions.

The numbers are a private copy (golden data); the way they are used here shares nothing with the code under test: tables are
interpolated by a generic routine, polynomials are evaluated from exponent lists, the motion is written with vectors."""
import math

import numpy as np

# rows: second argument (or coefficient), columns: angle of attack -10..45 deg every 5
CL = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [-0.001, -0.004, -0.008, -0.012, -0.016, -0.022, -0.022, -0.021, -0.015, -0.008, -0.013, -0.015],
    [-0.003, -0.009, -0.017, -0.024, -0.03, -0.041, -0.045, -0.04, -0.016, -0.002, -0.01, -0.019],
    [-0.001, -0.01, -0.02, -0.03, -0.039, -0.054, -0.057, -0.054, -0.023, -0.006, -0.014, -0.027],
    [0.0, -0.01, -0.022, -0.034, -0.047, -0.06, -0.069, -0.067, -0.033, -0.036, -0.035, -0.035],
    [0.007, -0.01, -0.023, -0.034, -0.049, -0.063, -0.081, -0.079, -0.06, -0.058, -0.062, -0.059],
    [0.009, -0.011, -0.023, -0.037, -0.05, -0.068, -0.089, -0.088, -0.091, -0.076, -0.077, -0.076],
]
CN = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0.018, 0.019, 0.018, 0.019, 0.019, 0.018, 0.013, 0.007, 0.004, -0.014, -0.017, -0.033],
    [0.038, 0.042, 0.042, 0.042, 0.043, 0.039, 0.03, 0.017, 0.004, -0.035, -0.047, -0.057],
    [0.056, 0.057, 0.059, 0.058, 0.058, 0.053, 0.032, 0.012, 0.002, -0.046, -0.071, -0.073],
    [0.064, 0.077, 0.076, 0.074, 0.073, 0.057, 0.029, 0.007, 0.012, -0.034, -0.065, -0.041],
    [0.074, 0.086, 0.093, 0.089, 0.08, 0.062, 0.049, 0.022, 0.028, -0.012, -0.002, -0.013],
    [0.079, 0.09, 0.106, 0.106, 0.096, 0.08, 0.068, 0.03, 0.064, 0.015, 0.011, -0.001],
]
DLDA = [
    [-0.041, -0.052, -0.053, -0.056, -0.05, -0.056, -0.082, -0.059, -0.042, -0.038, -0.027, -0.017],
    [-0.041, -0.053, -0.053, -0.053, -0.05, -0.051, -0.066, -0.043, -0.038, -0.027, -0.023, -0.016],
    [-0.042, -0.053, -0.052, -0.051, -0.049, -0.049, -0.043, -0.035, -0.026, -0.016, -0.018, -0.014],
    [-0.04, -0.052, -0.051, -0.052, -0.048, -0.048, -0.042, -0.037, -0.031, -0.026, -0.017, -0.012],
    [-0.043, -0.049, -0.048, -0.049, -0.043, -0.042, -0.042, -0.036, -0.025, -0.021, -0.016, -0.011],
    [-0.044, -0.048, -0.048, -0.047, -0.042, -0.041, -0.02, -0.028, -0.013, -0.014, -0.011, -0.01],
    [-0.043, -0.049, -0.047, -0.045, -0.042, -0.037, -0.003, -0.013, -0.01, -0.003, -0.007, -0.008],
]
DLDR = [
    [0.005, 0.017, 0.014, 0.01, -0.005, 0.009, 0.019, 0.005, -0.0, -0.005, -0.011, 0.008],
    [0.007, 0.016, 0.014, 0.014, 0.013, 0.009, 0.012, 0.005, 0.0, 0.004, 0.009, 0.007],
    [0.013, 0.013, 0.011, 0.012, 0.011, 0.009, 0.008, 0.005, -0.002, 0.005, 0.003, 0.005],
    [0.018, 0.015, 0.015, 0.014, 0.014, 0.014, 0.014, 0.015, 0.013, 0.011, 0.006, 0.001],
    [0.015, 0.014, 0.013, 0.013, 0.012, 0.011, 0.011, 0.01, 0.008, 0.008, 0.007, 0.003],
    [0.021, 0.011, 0.01, 0.011, 0.01, 0.009, 0.008, 0.01, 0.006, 0.005, 0.0, 0.001],
    [0.023, 0.01, 0.011, 0.011, 0.011, 0.01, 0.008, 0.01, 0.006, 0.014, 0.02, 0.0],
]
DNDA = [
    [0.001, -0.027, -0.017, -0.013, -0.012, -0.016, 0.001, 0.017, 0.011, 0.017, 0.008, 0.016],
    [0.002, -0.014, -0.016, -0.016, -0.014, -0.019, -0.021, 0.002, 0.012, 0.016, 0.015, 0.011],
    [-0.006, -0.008, -0.006, -0.006, -0.005, -0.008, -0.005, 0.007, 0.004, 0.007, 0.006, 0.006],
    [-0.011, -0.011, -0.01, -0.009, -0.008, -0.006, 0.0, 0.004, 0.007, 0.01, 0.004, 0.01],
    [-0.015, -0.015, -0.014, -0.012, -0.011, -0.008, -0.002, 0.002, 0.006, 0.012, 0.011, 0.011],
    [-0.024, -0.01, -0.004, -0.002, -0.001, 0.003, 0.014, 0.006, -0.001, 0.004, 0.004, 0.006],
    [-0.022, 0.002, -0.003, -0.005, -0.003, -0.001, -0.009, -0.009, -0.001, 0.003, -0.002, 0.001],
]
DNDR = [
    [-0.018, -0.052, -0.052, -0.052, -0.054, -0.049, -0.059, -0.051, -0.03, -0.037, -0.026, -0.013],
    [-0.028, -0.051, -0.043, -0.046, -0.045, -0.049, -0.057, -0.052, -0.03, -0.033, -0.03, -0.008],
    [-0.037, -0.041, -0.038, -0.04, -0.04, -0.038, -0.037, -0.03, -0.027, -0.024, -0.019, -0.013],
    [-0.048, -0.045, -0.045, -0.045, -0.044, -0.045, -0.047, -0.048, -0.049, -0.045, -0.033, -0.016],
    [-0.043, -0.044, -0.041, -0.041, -0.04, -0.038, -0.034, -0.035, -0.035, -0.029, -0.022, -0.009],
    [-0.052, -0.034, -0.036, -0.036, -0.035, -0.028, -0.024, -0.023, -0.02, -0.016, -0.01, -0.014],
    [-0.062, -0.034, -0.027, -0.028, -0.027, -0.027, -0.023, -0.023, -0.019, -0.009, -0.025, -0.01],
]
CM = [
    [0.205, 0.168, 0.186, 0.196, 0.213, 0.251, 0.245, 0.238, 0.252, 0.231, 0.198, 0.192],
    [0.081, 0.077, 0.107, 0.11, 0.11, 0.141, 0.127, 0.119, 0.133, 0.108, 0.081, 0.093],
    [-0.046, -0.02, -0.009, -0.005, -0.006, 0.01, 0.006, -0.001, 0.014, 0.0, -0.013, 0.032],
    [-0.174, -0.145, -0.121, -0.127, -0.129, -0.102, -0.097, -0.113, -0.087, -0.084, -0.069, -0.006],
    [-0.259, -0.202, -0.184, -0.193, -0.199, -0.15, -0.16, -0.167, -0.104, -0.076, -0.041, -0.005],
]
CX = [
    [-0.099, -0.081, -0.081, -0.063, -0.025, 0.044, 0.097, 0.113, 0.145, 0.167, 0.174, 0.166],
    [-0.048, -0.038, -0.04, -0.021, 0.016, 0.083, 0.127, 0.137, 0.162, 0.177, 0.179, 0.167],
    [-0.022, -0.02, -0.021, -0.004, 0.032, 0.094, 0.128, 0.13, 0.154, 0.161, 0.155, 0.138],
    [-0.04, -0.038, -0.039, -0.025, 0.006, 0.062, 0.087, 0.085, 0.1, 0.11, 0.104, 0.091],
    [-0.083, -0.073, -0.076, -0.072, -0.046, 0.012, 0.024, 0.025, 0.043, 0.053, 0.047, 0.04],
]
CZ = [0.77, 0.241, -0.1, -0.415, -0.731, -1.053, -1.355, -1.646, -1.917, -2.12, -2.248, -2.229]
DAMPP = [
    [-0.267, -0.11, 0.308, 1.34, 2.08, 2.91, 2.76, 2.05, 1.5, 1.49, 1.83, 1.21],
    [0.882, 0.852, 0.876, 0.958, 0.962, 0.974, 0.819, 0.483, 0.59, 1.21, -0.493, -1.04],
    [-0.108, -0.108, -0.188, 0.11, 0.258, 0.226, 0.344, 0.362, 0.611, 0.529, 0.298, -2.27],
    [-8.8, -25.8, -28.9, -31.4, -31.2, -30.7, -27.7, -28.2, -29.0, -29.8, -38.3, -35.3],
    [-0.126, -0.026, 0.063, 0.113, 0.208, 0.23, 0.319, 0.437, 0.68, 0.1, 0.447, -0.33],
    [-0.36, -0.359, -0.443, -0.42, -0.383, -0.375, -0.329, -0.294, -0.23, -0.21, -0.12, -0.1],
    [-7.21, -0.54, -5.23, -5.26, -6.11, -6.64, -5.69, -6.0, -6.2, -6.4, -6.6, -6.0],
    [-0.38, -0.363, -0.378, -0.386, -0.37, -0.453, -0.55, -0.582, -0.595, -0.637, -1.02, -0.84],
    [0.061, 0.052, 0.052, -0.012, -0.013, -0.024, 0.05, 0.15, 0.13, 0.158, 0.24, 0.15],
]
# engine: rows Mach 0..1 every 0.2, columns altitude 0..50000 ft every 10000
IDLE = [
    [1060, 670, 880, 1140, 1500, 1860],
    [635, 425, 690, 1010, 1330, 1700],
    [60, 25, 345, 755, 1130, 1525],
    [-1020, -170, -300, 350, 910, 1360],
    [-2700, -1900, -1300, -247, 600, 1100],
    [-3600, -1400, -595, -342, -200, 700],
]
MIL = [
    [12680, 9150, 6200, 3950, 2450, 1400],
    [12680, 9150, 6313, 4040, 2470, 1400],
    [12610, 9312, 6610, 4290, 2600, 1560],
    [12640, 9839, 7090, 4660, 2840, 1660],
    [12390, 10176, 7750, 5320, 3250, 1930],
    [11680, 9848, 8050, 6100, 3800, 2310],
]
MAX = [
    [20000, 15000, 10800, 7000, 4000, 2500],
    [21420, 15700, 11225, 7323, 4435, 2600],
    [22700, 16860, 12250, 8154, 5000, 2835],
    [24240, 18910, 13760, 9285, 5700, 3215],
    [26070, 21075, 15975, 11115, 6860, 3950],
    [28886, 23319, 18300, 13484, 8642, 5057],
]
MORELLI = {
    'a': [-1.943367e-2, 2.136104e-1, -2.903457e-1, -3.348641e-3, -2.060504e-1, 6.988016e-1, -9.035381e-1],
    'b': [4.833383e-1, 8.644627, 1.131098e1, -7.422961e1, 6.075776e1],
    'c': [-1.145916, 6.016057e-2, 1.642479e-1],
    'd': [-1.006733e-1, 8.679799e-1, 4.260586, -6.923267],
    'e': [8.071648e-1, 1.189633e-1, 4.177702, -9.162236],
    'f': [-1.378278e-1, -4.211369, 4.775187, -1.026225e1, 8.399763, -4.354000e-1],
    'g': [-3.054956e1, -4.132305e1, 3.292788e2, -6.848038e2, 4.080244e2],
    'h': [-1.05853e-1, -5.776677e-1, -1.672435e-2, 1.357256e-1, 2.172952e-1, 3.464156, -2.835451, -1.098104],
    'i': [-4.126806e-1, -1.189974e-1, 1.247721, -7.391132e-1],
    'j': [6.250437e-2, 6.067723e-1, -1.101964, 9.100087, -1.192672e1],
    'k': [-1.463144e-1, -4.07391e-2, 3.253159e-2, 4.851209e-1, 2.978850e-1, -3.746393e-1, -3.213068e-1],
    'l': [2.635729e-2, -2.192910e-2, -3.152901e-3, -5.817803e-2, 4.516159e-1, -4.928702e-1, -1.579864e-2],
    'm': [-2.029370e-2, 4.660702e-2, -6.012308e-1, -8.062977e-2, 8.320429e-2, 5.018538e-1, 6.378864e-1, 4.226356e-1],
    'n': [-5.19153, -3.554716, -3.598636e1, 2.247355e2, -4.120991e2, 2.411750e2],
    'o': [2.993363e-1, 6.594004e-2, -2.003125e-1, -6.233977e-2, -2.107885, 2.141420, 8.476901e-1],
    'p': [2.677652e-2, -3.298246e-1, 1.926178e-1, 4.013325, -4.404302],
    'q': [-3.698756e-1, -1.167551e-1, -7.641297e-1],
    'r': [-3.348717e-2, 4.276655e-2, 6.573646e-3, 3.535831e-1, -1.373308, 1.237582, 2.302543e-1, -2.512876e-1, 1.588105e-1, -5.199526e-1],
    's': [-8.115894e-2, -1.156580e-2, 2.514167e-2, 2.038748e-1, -3.337476e-1, 1.004297e-1],
}

ALPHAS = [-10.0 + 5 * i for i in range(12)]
BETAS5 = [0.0, 5.0, 10.0, 15.0, 20.0, 25.0, 30.0]
BETAS10 = [-30.0, -20.0, -10.0, 0.0, 10.0, 20.0, 30.0]
ELEV = [-24.0, -12.0, 0.0, 12.0, 24.0]
MACHS = [0.0, 0.2, 0.4, 0.6, 0.8, 1.0]
ALTS = [0.0, 10000.0, 20000.0, 30000.0, 40000.0, 50000.0]


def cell(grid, x):
    """Index of the cell whose line continues to x (the boundary cell outside the grid)."""
    i = 0
    while i < len(grid) - 2 and x >= grid[i + 1]:
        i += 1
    return i


def lerp(grid, vals, x):
    i = cell(grid, x)
    f = (x - grid[i]) / (grid[i + 1] - grid[i])
    return (1 - f) * vals[i] + f * vals[i + 1]


def bilerp(rows, cols, table, r, c):
    return lerp(rows, [lerp(cols, row, c) for row in table], r)


def lateral(table):
    """Coefficient tabulated for one side only: odd in sideslip."""

    def fn(alpha, beta):
        v = bilerp(BETAS5, ALPHAS, table, abs(beta), alpha)
        return v if beta > 0 else -v if beta < 0 else 0.0

    return fn


def twosided(table):
    return lambda alpha, beta: bilerp(BETAS10, ALPHAS, table, beta, alpha)


cl, cn = lateral(CL), lateral(CN)
dlda, dldr, dnda, dndr = (twosided(t) for t in (DLDA, DLDR, DNDA, DNDR))


def cx(alpha, el):
    return bilerp(ELEV, ALPHAS, CX, el, alpha)


def cm(alpha, el):
    return bilerp(ELEV, ALPHAS, CM, el, alpha)


def cy(beta, ail, rdr):
    return -0.02 * beta + 0.021 * ail / 20.0 + 0.086 * rdr / 30.0


def cz(alpha, beta, el):
    return lerp(ALPHAS, CZ, alpha) * (1.0 - beta * beta / 57.3**2) - 0.19 * el / 25.0


def dampp(alpha):
    return [lerp(ALPHAS, row, alpha) for row in DAMPP]


# polynomials: coefficient letter -> exponents of each term, variables named below
_P = {
    # (alpha, elevator)
    "a": ("ae", [(0, 0), (1, 0), (0, 2), (0, 1), (1, 1), (2, 0), (3, 0)]),
    "b": ("a", [(0, ), (1, ), (2, ), (3, ), (4, )]),
    "d": ("a", [(0, ), (1, ), (2, ), (3, )]),
    "e": ("a", [(0, ), (1, ), (2, ), (3, )]),
    "g": ("a", [(0, ), (1, ), (2, ), (3, ), (4, )]),
    "h": ("ab", [(0, 1), (1, 1), (2, 1), (0, 2), (1, 2), (3, 1), (4, 1), (2, 2)]),
    "i": ("a", [(0, ), (1, ), (2, ), (3, )]),
    "j": ("a", [(0, ), (1, ), (2, ), (3, ), (4, )]),
    "k": ("ab", [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (2, 1), (3, 0)]),
    "l": ("ab", [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (3, 1), (0, 2)]),
    "m": ("ae", [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (2, 1), (0, 3), (1, 2)]),
    "n": ("a", [(0, ), (1, ), (2, ), (3, ), (4, ), (5, )]),
    "o": ("ab", [(0, 1), (1, 1), (0, 2), (1, 2), (2, 1), (2, 2), (3, 1)]),
    "p": ("a", [(0, ), (1, ), (2, ), (3, ), (4, )]),
    "q": ("a", [(0, ), (1, ), (2, )]),
    "r": ("ab", [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (3, 1), (2, 0), (3, 0), (0, 3), (1, 3)]),
    "s": ("ab", [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (2, 0)]),
}


def poly(letter, env):
    vs, exps = _P[letter]
    return math.fsum(c * math.prod(env[v]**k for v, k in zip(vs, ex)) for c, ex in zip(MORELLI[letter], exps))


def sat(v, deg_lo, deg_hi):
    return min(max(v, math.radians(deg_lo)), math.radians(deg_hi))


def morelli(alpha, beta, de, da, dr, p, q, r, cbar, b, V, xcg, xcgref):
    a, be, el = sat(alpha, -10, 45), sat(beta, -30, 30), sat(de, -25, 25)
    ai, ru = sat(da, -21.5, 21.5), sat(dr, -30, 30)
    env = {"a": a, "b": be, "e": el}
    ph, qh, rh = p * b / (2 * V), q * cbar / (2 * V), r * b / (2 * V)
    P = {k: poly(k, env) for k in _P}
    c, f = MORELLI["c"], MORELLI["f"]
    Cx = P["a"] + P["b"] * qh
    Cy = c[0] * be + c[1] * ai + c[2] * ru + P["d"] * ph + P["e"] * rh
    Cz = sum(f[k] * a**k for k in range(5)) * (1 - be * be) + f[5] * el + P["g"] * qh
    Cl = P["h"] + P["i"] * ph + P["j"] * rh + P["k"] * ai + P["l"] * ru
    Cm = P["m"] + P["n"] * qh + Cz * (xcgref - xcg)
    Cn = P["o"] + P["p"] * ph + P["q"] * rh + P["r"] * ai + P["s"] * ru - Cy * (xcgref - xcg) * cbar / b
    return Cx, Cy, Cz, Cl, Cm, Cn


# --- air data and engine ----------------------------------------------------------------------------------------------
def adc(vt, alt):
    f = 1.0 - 0.703e-5 * alt
    temp = 390.0 if alt >= 35000.0 else 519.0 * f
    return vt / math.sqrt(1.4 * 1716.3 * temp), 0.5 * 2.377e-3 * f**4.14 * vt**2


def tgear(thtl):
    return 64.94 * thtl if thtl <= 0.77 else 217.38 * thtl - 117.38


def rtau(dp):
    return 1.0 if dp <= 25 else 0.1 if dp >= 50 else 1.9 - 0.036 * dp


def pdot(p3, p1):
    """Rate of the actual power p3 under commanded power p1."""
    if p1 >= 50:
        return 5.0 * (p1 - p3) if p3 >= 50 else rtau(60.0 - p3) * (60.0 - p3)
    return 5.0 * (40.0 - p3) if p3 >= 50 else rtau(p1 - p3) * (p1 - p3)


def thrust(power, alt, mach):
    alt = max(alt, 0.0)
    idle, mil, full = (bilerp(MACHS, ALTS, t, mach, alt) for t in (IDLE, MIL, MAX))
    return idle + (mil - idle) * power / 50.0 if power < 50 else mil + (full - mil) * (power - 50.0) / 50.0


# --- motion -----------------------------------------------------------------------------------------------------------
S, B, CBAR, HE, G, RTOD = 300.0, 30.0, 11.32, 160.0, 32.17, 57.29578
RM = 1.57e-3
C = (None, -0.770, 0.02755, 1.055e-4, 1.642e-6, 0.9604, 1.759e-2, 1.792e-5, -0.7336, 1.587e-5)
XA = 15.0


def rotation(phi, theta, psi):
    """Body to north-east-down."""
    cphi, sphi, ct, st, cp, sp = math.cos(phi), math.sin(phi), math.cos(theta), math.sin(theta), math.cos(psi), math.sin(psi)
    Rz = np.array([[cp, -sp, 0], [sp, cp, 0], [0, 0, 1.0]])
    Ry = np.array([[ct, 0, st], [0, 1, 0], [-st, 0, ct]])
    Rx = np.array([[1, 0, 0], [0, cphi, -sphi], [0, sphi, cphi]])
    return Rz @ Ry @ Rx


def eom(x, u, model, adjust_cy=True):
    vt, al, be, phi, theta, psi, p, q, r, _, _, alt, power = [float(v) for v in x]
    thtl, el, ail, rdr = [float(v) for v in u]
    alpha, beta = al * RTOD, be * RTOD
    mach, qbar = adc(vt, alt)
    T = thrust(power, alt, mach)
    if model == "stevens":
        Cf = np.array([cx(alpha, el), cy(beta, ail, rdr), cz(alpha, beta, el)])
        Cmom = np.array(
            [
                cl(alpha, beta) + dlda(alpha, beta) * ail / 20 + dldr(alpha, beta) * rdr / 30, cm(alpha, el),
                cn(alpha, beta) + dnda(alpha, beta) * ail / 20 + dndr(alpha, beta) * rdr / 30
            ]
        )
    else:
        k = math.pi / 180
        c6 = morelli(alpha * k, beta * k, el * k, ail * k, rdr * k, p, q, r, CBAR, B, vt, 0.35, 0.35)
        Cf, Cmom = np.array(c6[:3]), np.array(c6[3:])
    d = dampp(alpha)
    pb, qc, rb = p * B / (2 * vt), q * CBAR / (2 * vt), r * B / (2 * vt)
    Cf = Cf + np.array([d[0] * qc, d[1] * rb + d[2] * pb, d[3] * qc])
    Cmom = Cmom + np.array([d[4] * rb + d[5] * pb, d[6] * qc, d[7] * rb + d[8] * pb])
    R = rotation(phi, theta, psi)
    vel = vt * np.array([math.cos(al) * math.cos(be), math.sin(be), math.sin(al) * math.cos(be)])
    om = np.array([p, q, r])
    aero = RM * qbar * S * Cf
    acc = aero + np.array([RM * T, 0, 0]) + R.T @ np.array([0, 0, G]) - np.cross(om, vel)
    U, V, W = vel
    xd = np.zeros(13)
    xd[0] = vel @ acc / vt
    xd[1] = (U * acc[2] - W * acc[0]) / (U * U + W * W)
    # beta = asin(v / vt)
    xd[2] = (acc[1] - V * xd[0] / vt) / math.sqrt(U * U + W * W)
    xd[3:6] = np.linalg.solve(
        np.array(
            [[1, 0, -math.sin(theta)], [0, math.cos(phi), math.cos(theta) * math.sin(phi)], [0, -math.sin(phi), math.cos(theta) * math.cos(phi)]]
        ), om
    )
    Lm, Mm, Nm = qbar * S * Cmom * np.array([B, CBAR, B])
    xd[6] = q * (C[1] * r + C[2] * p + C[4] * HE) + C[3] * Lm + C[4] * Nm
    xd[7] = (C[5] * p - C[7] * HE) * r - C[6] * (p * p - r * r) + C[7] * Mm
    xd[8] = q * (C[8] * p - C[2] * r + C[9] * HE) + C[4] * Lm + C[9] * Nm
    ned = R @ vel
    xd[9:12] = ned[0], ned[1], -ned[2]
    xd[12] = pdot(power, tgear(thtl))
    az = aero[2] - XA * xd[7]
    ay = aero[1] + (XA * xd[8] if adjust_cy else 0.0)
    # magnitudes, for rounding tolerances
    mag = np.array(
        [
            np.abs(acc).sum() + np.abs(np.cross(om, vel)).sum() + G + RM * abs(T), 0, 0, 0, 0, 0,
            abs(C[3] * Lm) + abs(C[4] * Nm) + 1e-3 + abs(xd[6]), abs(C[7] * Mm) + 1e-2 + abs(xd[7]), abs(C[4] * Lm) + abs(C[9] * Nm) + 1e-3 + abs(xd[8]), vt, vt, vt, 100.0
        ]
    )
    mag[1] = mag[0] / math.hypot(U, W)
    mag[2] = mag[0] / math.hypot(U, W)
    mag[3:6] = (abs(p) + abs(q) + abs(r)) / abs(math.cos(theta))
    return xd, -az / G - 1, ay / G, az, ay, mag


# --- controller -------------------------------------------------------------------------------------------------------
K_LONG = [-156.8801506723475, -31.037008068526642, -38.72983346216317]
K_LAT = [[37.84483, -25.40956, -6.82876, -332.88343, -17.15997], [-23.91233, 5.69968, -21.63431, 64.49490, -88.36203]]
XEQ = [502.0, 0.0389, 0.0, 0.0, 0.0389, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1000.0, 9.0567]
UEQ = [0.1395, -0.7496, 0.0, 0.0]
LIMITS = [(0.0, 1.0), (-25.0, 25.0), (-21.5, 21.5), (-30.0, 30.0)]


def control(x, throttle, limits=LIMITS):
    """Feedback vector and saturated surface commands (throttle fraction, degrees)."""
    dx = [float(x[i]) - (XEQ[i] if i < 13 else 0.0) for i in range(16)]
    lon = [dx[1], dx[7], dx[13]]
    lat = [dx[2], dx[6], dx[8], dx[14], dx[15]]
    raw = [throttle + UEQ[0], -math.fsum(k * v for k, v in zip(K_LONG, lon)) + UEQ[1]]
    raw += [-math.fsum(k * v for k, v in zip(row, lat)) + e for row, e in zip(K_LAT, UEQ[2:])]
    return lon + lat, raw, [min(max(v, lo), hi) for v, (lo, hi) in zip(raw, limits)]
