"""Documented instantaneous force laws, elementwise in the local displacement u
and velocity v.  Parsed by the analysis, never executed."""
import numpy as np


def CubicForce(u, v, kalpha):
    return kalpha * u**3


def QuinticForce(u, v, kalpha):
    return kalpha * u**5


def CubicDamping(u, v, calpha):
    return calpha * v**3


def UnilateralSpring(u, v, k, Npreload=0, delta=0):
    return np.where(u > delta, k*(u - delta) - Npreload, -Npreload)


def ConservativeIwanBB(u, v, kt, Fs, chi, beta):
    phimax = Fs*(1 + beta)/(kt*(beta + (chi + 1)/(chi + 2)))
    R = kt/(1 + beta)/phimax**(1 + chi)
    a = np.abs(u)
    return np.sign(u)*np.where(a < phimax, kt*a - R/(chi + 2)*a**(chi + 2), Fs)


def GenPolyForce(u, v, Emat, qq):
    return np.prod(u[:, None, :]**qq[None, :, :], axis=2) @ Emat.T
