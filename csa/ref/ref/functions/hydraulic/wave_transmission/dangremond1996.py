"""d'Angremond et al. (1996): Kt = -0.4 Rc/H + C1 (B/H)^-0.31 (1 - exp(-0.5 ksi)), 0.075 <= Kt <= 0.8"""
import numpy as np
from ref.functions.core_physics import calculate_Iribarren_number_ksi, calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "D'Angremond et al. (1996)"


def check_validity(Kt=np.nan, s0p=np.nan, Hsi_over_h=np.nan, Rc_over_Hsi=np.nan):
    if not np.isnan(Kt):
        check("Transmission coefficient Kt", F, Kt, 0.075, 0.8)
    if not np.isnan(s0p):
        check("Wave steepness s0p (dataset limit)", F, s0p, 0, 0.06)
    if not np.isnan(Hsi_over_h):
        check("Relative water depth Hsi/h (dataset limit)", F, Hsi_over_h, 0, 0.54)
    if not np.isnan(Rc_over_Hsi):
        check("Relative crest level Rc/Hsi (dataset limit)", F, Rc_over_Hsi, -2.5, 2.5)


def calculate_wave_transmission_Kt_permeable(Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.64, do_validity_check=True):
    ksi = calculate_Iribarren_number_ksi(Hsi, Tpi, cot_alpha)
    Kt = -0.4 * Rc / Hsi + C1 * (B / Hsi) ** -0.31 * (1 - np.exp(-0.5 * ksi))
    if do_validity_check:
        check_validity(Kt, calculate_wave_steepness_s(Hsi, Tpi), Hsi / h, Rc / Hsi)
    return np.clip(Kt, 0.075, 0.8)


def calculate_wave_transmission_Kt_impermeable(C1=0.8, **kw):
    return calculate_wave_transmission_Kt_permeable(C1=C1, **kw)
