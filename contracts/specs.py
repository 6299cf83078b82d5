"""Specification functions, written once. They are executed symbolically by the verifier (for every size and
index) and with numpy as the oracle of the concrete replays."""
import numpy as np


# ---------------------------------------------------------------- steering vectors / transfer (Sarradin 2012)
def transfer(r0, rm, k):
    """a_m = r0/rm * exp(-j k (rm - r0))"""
    d = rm - r0[:, np.newaxis]
    return (np.cos(k * d) - 1j * np.sin(k * d)) * r0[:, np.newaxis] / rm


def steer(kind, r0, rm, k):
    """the four steering vector formulations h(grid, mic)"""
    nm = rm.shape[1]
    a = transfer(r0, rm, k)
    d = rm - r0[:, np.newaxis]
    ph = np.cos(k * d) - 1j * np.sin(k * d)
    if kind == 'classic':
        return ph / nm
    if kind == 'inverse':
        return ph * rm / r0[:, np.newaxis] / nm
    s = (1.0 / (rm * rm)).sum(1)
    if kind == 'true level':
        return ph / (rm * r0[:, np.newaxis] * s[:, np.newaxis])
    return ph / (rm * np.sqrt(nm * s)[:, np.newaxis])


# ---------------------------------------------------------------- beamforming
def quadform(h, csm, rdiag):
    """Re sum_ij conj(h_i) C_ij h_j, optionally without the diagonal terms"""
    full = np.einsum('gi,ij,gj->g', np.conj(h), csm, h).real
    if rdiag:
        return full - np.einsum('gi,ii,gi->g', np.conj(h), csm, h).real
    return full


def steernorm(h):
    return (h.real * h.real + h.imag * h.imag).sum(1)


def csm_of_eig(eva, eve):
    return np.einsum('ie,e,je->ij', eve, eva, np.conj(eve))


# ---------------------------------------------------------------- cross-spectral matrix
def csm_upper_update(csm, ft):
    """upper triangle accumulates X_i conj(X_j); the lower one is left alone"""
    n = csm.shape[1]
    prod = np.einsum('fi,fj->fij', ft, np.conj(ft))
    i = np.arange(n)
    return csm + np.where(i[:, np.newaxis] <= i[np.newaxis, :], 1.0, 0.0)[np.newaxis, :, :] * prod


# ---------------------------------------------------------------- point spread function
def psf(kind, r0, rm, k, src):
    """unit source (unit pressure at the reference position) at grid point src[s], beamformed"""
    h = steer(kind, r0, rm, k)
    a = transfer(r0, rm, k)
    v = np.einsum('gm,sm->gs', np.conj(h), a[src, :])
    return v.real * v.real + v.imag * v.imag


# ---------------------------------------------------------------- time domain delay and sum
def delay_and_sum(data, off, frac, amp, n):
    """rows t = 0..n-1 : sum_m ((1-f) x[off+t, m] + f x[off+t+1, m]) * amp"""
    t = np.arange(n)[:, np.newaxis, np.newaxis]
    m = np.arange(off.shape[1])[np.newaxis, np.newaxis, :]
    o = off[np.newaxis, :, :]
    f = frac[np.newaxis, :, :]
    r = (data[o + t, m] * (1.0 - f) + data[o + t + 1, m] * f) * amp[np.newaxis, :, :]
    return r.sum(2), (r * r).sum(2)


def delay_and_sum_moving(data, off, frac, amp, n):
    t = np.arange(n)[:, np.newaxis, np.newaxis]
    m = np.arange(off.shape[2])[np.newaxis, np.newaxis, :]
    o = off[:n]
    f = frac[:n]
    r = (data[o + t, m] * (1.0 - f) + data[o + t + 1, m] * f) * amp[:n]
    return r.sum(2), (r * r).sum(2)


def steer_amp(kind, r0, rm):
    """amplitudes |h| of the four formulations, per time step"""
    nm = rm.shape[2]
    if kind == 1:
        return np.ones_like(rm) / nm
    if kind == 2:
        return rm / (nm * r0[:, :, np.newaxis])
    s = (1.0 / (rm * rm)).sum(2)
    if kind == 3:
        return 1.0 / (rm * (r0 * s)[:, :, np.newaxis])
    return 1.0 / (rm * np.sqrt(nm * s)[:, :, np.newaxis])


# ---------------------------------------------------------------- signals
def sine(a, f, ph, fs, n):
    return a * np.sin(2 * np.pi * f * np.arange(n) / fs + ph)
