"""Reference models: NumPy, math and healpy only, written from the documentation."""
import math
from fractions import Fraction

import healpy as hp
import numpy as np

TWOPI = 2. * np.pi


# ---------------------------------------------------------------- planar / spherical
def polar(x, y, cx, cy):
    dx, dy = x - cx, y - cy
    return math.hypot(dx, dy), math.atan2(dy, dx) % TWOPI


def circ(a, b):
    """Distance of two angles on the circle."""
    d = np.abs(np.mod(np.asarray(a, float) - np.asarray(b, float), TWOPI))
    return np.minimum(d, TWOPI - d)


def unit(phi, theta):
    phi, theta = np.asarray(phi, float), np.asarray(theta, float)
    return np.stack([np.cos(phi) * np.sin(theta), np.sin(phi) * np.sin(theta), np.cos(theta) + 0. * phi], axis=-1)


def angles(v):
    """(phi in [0, 2pi), theta) of vectors, accurate at the poles."""
    v = np.asarray(v, float)
    phi = np.mod(np.arctan2(v[..., 1], v[..., 0]), TWOPI)
    theta = np.arctan2(np.hypot(v[..., 0], v[..., 1]), v[..., 2])
    return phi, theta


def rodrigues(axis, angle):
    k = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0.]])
    return np.eye(3) + math.sin(angle) * K + (1. - math.cos(angle)) * (K @ K)


def rz(a):
    return rodrigues([0., 0., 1.], a)


def along_meridian(phi, dtheta):
    """Turn that raises the polar angle by dtheta on the meridian phi."""
    return rodrigues([-math.sin(phi), math.cos(phi), 0.], dtheta)


def rot_rotate(phi_end, theta_end, phi_start, theta_start):
    u, v = unit(phi_start, theta_start), unit(phi_end, theta_end)
    n = np.cross(u, v)
    return rodrigues(n, math.atan2(np.linalg.norm(n), float(u @ v)))


def rot_shift(phi_start, theta_start, phi_end, theta_end):
    return along_meridian(phi_end, theta_end - theta_start) @ rz(phi_end - phi_start)


def rot_spin(phi_c, theta_c, alpha):
    return rodrigues(unit(phi_c, theta_c), alpha)


# ---------------------------------------------------------------- HEALPix plane
def heal_xy(phi, theta):
    """Calabretta & Roukema (2007), phi in [0, 2pi)."""
    phi, theta = np.asarray(phi, float), np.asarray(theta, float)
    z = np.cos(theta)
    cap = np.abs(z) > 2. / 3.
    # 1-|z| = 2 sin^2 of half the polar distance, accurate at the poles
    half = np.where(z > 0, np.sin(theta / 2.), np.cos(theta / 2.))
    sig = np.sqrt(3. * 2. * half**2)
    phic = (2. * np.floor(2. * phi / np.pi) + 1.) * np.pi / 4.
    x = np.where(cap, phic + (phi - phic) * sig, phi)
    y = np.where(cap, np.sign(z) * np.pi / 4. * (2. - sig), 3. * np.pi / 8. * z)
    return x, y


def heal_centre_xy(nside, p):
    theta, phi = hp.pix2ang(nside, p)
    return heal_xy(phi, theta)


# ---------------------------------------------------------------- overlaps
def overlap(a0, a1, b0, b1):
    return max(Fraction(0), min(a1, b1) - max(a0, b0))


def F(x):
    return Fraction(float(x))
