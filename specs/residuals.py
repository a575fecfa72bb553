"""Reference equations of the frequency domain residuals, in the notation of the
documentation.  These functions are never executed: they are parsed by the
analysis and brought to the same index-notation normal form as the library.

h0 : 1 when the harmonic list starts with 0, otherwise 0
p  : number of harmonic components below the tracked superharmonic
E(M,C,K,w) is the harmonic stiffness, FNL(U,w) the summed AFT force.
"""
import numpy as np


def E(M, C, K, w):
    pass


def FNL(U, w):
    pass


def split_force(Fl, h0, Nd):
    """static part (zeroth harmonic) and dynamic part of a force vector"""
    static = np.concatenate((Fl[:h0*Nd], np.zeros(Fl.shape[0] - h0*Nd)))
    return static, Fl - static


def balance(s, U, w, F):
    return E(s.M, s.C, s.K, w) @ U + FNL(U, w) - F


def hbm_res(s, X, Fl, h, h0, Nd):
    U = X[:-1]
    w = X[-1]
    return balance(s, U, w, Fl)


def hbm_res_dFl(s, X, w, Fl, h, h0, Nd):
    U = X[:-1]
    scale = X[-1]
    static, dyn = split_force(Fl, h0, Nd)
    return balance(s, U, w, static + scale*dyn)


def epmc_res(s, X, Fl, h, h0, Nd):
    Q = X[:-3]
    w = X[-3]
    xi = X[-2]
    amp = 10**X[-1]
    static, dyn = split_force(Fl, h0, Nd)
    U = np.concatenate((Q[:h0*Nd], amp*Q[h0*Nd:]))
    eq = E(s.M, s.C - xi*s.M, s.K, w) @ U + FNL(U, w) - static
    c = Q[h0*Nd:(h0+1)*Nd]
    n = Q[(h0+1)*Nd:(h0+2)*Nd]
    mass = c @ s.M @ c + n @ s.M @ n - 1
    phase = dyn @ Q
    return np.concatenate((eq, np.array([mass]), np.array([phase])))


def force_recovery(s, U, w, p, Nd):
    low = np.concatenate((U[:p*Nd], np.zeros(U.shape[0] - p*Nd)))
    F = FNL(low, w)
    return -F[p*Nd:(p+1)*Nd], -F[(p+1)*Nd:(p+2)*Nd]


def cosine(Fc, Fs, Xc, Xs):
    """cosine of the angle between excitation and response of the harmonic"""
    return (Fc @ Xc + Fs @ Xs) / (np.sqrt(Fc @ Fc + Fs @ Fs) * np.sqrt(Xc @ Xc + Xs @ Xs))


def vprnm_equation(s, U, w, p, Nd):
    Fc, Fs = force_recovery(s, U, w, p, Nd)
    return cosine(Fc, Fs, U[p*Nd:(p+1)*Nd], U[(p+1)*Nd:(p+2)*Nd])


def vprnm_equation_filter(s, U, w, p, Nd, phi):
    Fc, Fs = force_recovery(s, U, w, p, Nd)
    return cosine(phi @ Fc, phi @ Fs, phi @ s.M @ U[p*Nd:(p+1)*Nd], phi @ s.M @ U[(p+1)*Nd:(p+2)*Nd])


def vprnm_single_eqn(s, U, w, h, rhi, h0, Nd, p):
    return vprnm_equation(s, U, w, p, Nd)


def vprnm_single_eqn_filter(s, U, w, h, rhi, h0, Nd, p, phi):
    return vprnm_equation_filter(s, U, w, p, Nd, phi)


def vprnm_res(s, X, h, rhi, Fl, h0, Nd, p, scale):
    U = X[:-2]
    w = X[-2]
    static, dyn = split_force(Fl, h0, Nd)
    eq = balance(s, U, w, static + X[-1]*dyn)
    return np.concatenate((eq, np.array([scale*vprnm_equation(s, U, w, p, Nd)])))


def vprnm_res_filter(s, X, h, rhi, Fl, h0, Nd, p, scale, phi):
    U = X[:-2]
    w = X[-2]
    static, dyn = split_force(Fl, h0, Nd)
    eq = balance(s, U, w, static + X[-1]*dyn)
    return np.concatenate((eq, np.array([scale*vprnm_equation_filter(s, U, w, p, Nd, phi)])))


def hbm_amp_control_res(s, X, Fl, h, recov, amp, order, h0, Nd):
    U = X[:-2]
    w = X[-1]
    static, dyn = split_force(Fl, h0, Nd)
    eq = balance(s, U, w, static + X[-2]*dyn)
    c = w**order * (recov @ U[h0*Nd:(h0+1)*Nd])
    n = w**order * (recov @ U[(h0+1)*Nd:(h0+2)*Nd])
    return np.concatenate((eq, np.array([c**2 + n**2 - amp**2])))


def phase_force(Fl, Fc, Fs, h0, Nd):
    """cosine and sine excitation with the spatial pattern of the first cosine"""
    d = Fl[h0*Nd:(h0+1)*Nd]
    return np.concatenate((Fl[:h0*Nd], Fc*d, Fs*d, np.zeros(Fl.shape[0] - (h0+2)*Nd)))


def amp_phase(s, U, Fc, Fs, w, A, Fl, recov, order, h0, Nd):
    eq = balance(s, U, w, phase_force(Fl, Fc, Fs, h0, Nd))
    c = w**order * (recov @ U[h0*Nd:(h0+1)*Nd]) - A
    n = w**order * (recov @ U[(h0+1)*Nd:(h0+2)*Nd])
    return np.concatenate((eq, np.array([c]), np.array([n])))


def hbm_amp_phase_control_res(s, X, Fl, h, recov, amp, order, h0, Nd):
    return amp_phase(s, X[:-3], X[-3], X[-2], X[-1], amp, Fl, recov, order, h0, Nd)


def hbm_amp_phase_control_dA_res(s, X, Fl, h, recov, w, order, h0, Nd):
    return amp_phase(s, X[:-3], X[-3], X[-2], w, X[-1], Fl, recov, order, h0, Nd)


def vprnm_amp_phase_res(s, X, Fl, h, rhi, recov, order, h0, Nd, p, scale):
    eq = amp_phase(s, X[:-4], X[-4], X[-3], X[-2], X[-1], Fl, recov, order, h0, Nd)
    return np.concatenate((eq, np.array([scale*vprnm_equation(s, X[:-4], X[-2], p, Nd)])))


def vprnm_amp_phase_res_filter(s, X, Fl, h, rhi, recov, order, h0, Nd, p, scale, phi):
    eq = amp_phase(s, X[:-4], X[-4], X[-3], X[-2], X[-1], Fl, recov, order, h0, Nd)
    return np.concatenate((eq, np.array([scale*vprnm_equation_filter(s, X[:-4], X[-2], p, Nd, phi)])))
