"""Briganti et al. (2003) for rubble mound low-crested structures; narrow crests: d'Angremond et al. (1996)"""
import numpy as np
from ref.functions.core_physics import calculate_Iribarren_number_ksi, calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check
import ref.functions.hydraulic.wave_transmission.dangremond1996 as dangremond1996


def check_validity(s0p=np.nan, ksi_0p=np.nan):
    if not np.isnan(s0p):
        check("Wave steepness s0p", "Briganti (2003)", s0p, 0.005, 0.07)
    if not np.isnan(ksi_0p):
        check("Surf similarity parameter ksi_0p", "Briganti (2003)", ksi_0p, 0.5, 10.0)


def calculate_wave_transmission_Kt(Hsi, Tpi, Rc, B, cot_alpha):
    ksi = calculate_Iribarren_number_ksi(Hsi, Tpi, cot_alpha)
    if B / Hsi < 10:
        Kt = np.clip(-0.4 * Rc / Hsi + 0.64 * (B / Hsi) ** -0.31 * (1 - np.exp(-0.5 * ksi)), 0.075, 0.8)
    else:
        Kt = -0.35 * Rc / Hsi + 0.51 * (B / Hsi) ** -0.65 * (1 - np.exp(-0.41 * ksi))
    check_validity(calculate_wave_steepness_s(Hsi, Tpi), ksi)
    return np.maximum(0.05, np.minimum(Kt, 0.93 - 0.006 * B / Hsi))
