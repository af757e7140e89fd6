"""Van Gent (2001), eq. 3: z = c0 ksi (ksi<p) ; c1 - c2/ksi ; c2 = 0.25 c1^2/c0 ; p = 0.5 c1/c0"""
import numpy as np
from ref.functions.core_physics import calculate_Iribarren_number_ksi


def calculate_wave_runup_height_z1p(Hs, Tmm10, gamma, cot_alpha, c0=1.45, c1=5.1):
    return calculate_wave_runup_height_zXp(Hs, Tmm10, gamma, cot_alpha, c0, c1)


def calculate_wave_runup_height_z2p(Tmm10, gamma, cot_alpha, Hm0=np.nan, Hs=np.nan, c0=1.35, c1=4.7):
    if np.isnan(Hm0) == np.isnan(Hs):
        raise ValueError("one of Hm0, Hs")
    if np.isnan(Hs):
        return calculate_wave_runup_height_zXp(Hm0, Tmm10, gamma, cot_alpha, 1.45, 3.8)
    return calculate_wave_runup_height_zXp(Hs, Tmm10, gamma, cot_alpha, c0, c1)


def calculate_wave_runup_height_z10p(Hs, Tmm10, gamma, cot_alpha, c0=1.1, c1=4.0):
    return calculate_wave_runup_height_zXp(Hs, Tmm10, gamma, cot_alpha, c0, c1)


def calculate_wave_runup_height_zXp(H, Tmm10, gamma, cot_alpha, c0, c1):
    ksi = calculate_Iribarren_number_ksi(H, Tmm10, cot_alpha)
    if ksi < 0.5 * c1 / c0:
        return gamma * H * c0 * ksi
    return gamma * H * (c1 - 0.25 * c1**2 / c0 / ksi)


def _invert_for_Hs(Hs_i0, z1p, Tmm10, gamma, cot_alpha, c0=1.45, c1=5.1):
    ksi = calculate_Iribarren_number_ksi(Hs_i0, Tmm10, cot_alpha)
    if ksi < 0.5 * c1 / c0:
        return z1p / (gamma * c0 * ksi)
    return z1p / (gamma * (c1 - 0.25 * c1**2 / c0 / ksi))
