"""Jumelet et al. (2024): mild slopes"""
import numpy as np
from ref.functions.core_physics import (calculate_buoyant_density_Delta as buoy, calculate_Iribarren_number_ksi as iri,
                                        check_usage_Dn50_or_M50, calculate_wave_steepness_s)
from ref.functions.core_utility import check_variable_validity_range as check

F = "Jumelet et al., 2024"


def check_validity_range(Hs=np.nan, Tmm10=np.nan, N_waves=np.nan, cot_alpha=np.nan):
    if not np.isnan(Hs * Tmm10):
        check("Wave steepness sm-1,0", F, calculate_wave_steepness_s(Hs, Tmm10), 0.009, 0.057)
    if not np.isnan(Hs * Tmm10 * cot_alpha):
        check("Iribarren number ksi_m-1,0", F, iri(Hs, Tmm10, cot_alpha), 0.42, 1.66)
    if not np.isnan(cot_alpha):
        check("Cotangent of outer structure slope cot_alpha", F, cot_alpha, 6.0, 10.0)
    if not np.isnan(N_waves):
        check("Number of waves N_waves", F, N_waves, 250, 20000)


def calculate_fraction_plunging_waves_Fp(ksi_mm10):
    return -1.7 * ksi_mm10 ** 2 + 3.2 * ksi_mm10 - 0.5


def calculate_damage_number_S(Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=np.nan, M50=np.nan, c_pl=4.3,
                              rho_water=1025.0):
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    ksi = iri(Hs, Tmm10, cot_alpha)
    n = np.round(calculate_fraction_plunging_waves_Fp(ksi) * N_waves)
    check_validity_range(Hs, Tmm10, N_waves, cot_alpha)
    return (Hs / (buoy(rho_armour, rho_water) * D) * ksi * n ** 0.1 / c_pl) ** 5


def calculate_nominal_rock_diameter_Dn50(Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, c_pl=4.3):
    ksi = iri(Hs, Tmm10, cot_alpha)
    n = np.round(calculate_fraction_plunging_waves_Fp(ksi) * N_waves)
    check_validity_range(Hs, Tmm10, N_waves, cot_alpha)
    return Hs / buoy(rho_armour, 1025) * ksi * n ** 0.1 / (c_pl * S ** 0.2)


def calculate_significant_wave_height_Hs(Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=np.nan, M50=np.nan, c_pl=4.3,
                                         g=9.81, smm10_init=0.03, max_iter=1000, tolerance=0.001):
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    old = smm10_init * g * Tmm10 ** 2 / (2 * np.pi)
    ksi = iri(old, Tmm10, cot_alpha)
    dif = np.inf
    while np.max(dif) > tolerance:
        n = np.round(calculate_fraction_plunging_waves_Fp(ksi) * N_waves)
        h = (c_pl * S ** 0.2 * n ** -0.1 * cot_alpha * buoy(rho_armour, 1025) * D) ** 2 * 2 * np.pi / (g * Tmm10 ** 2)
        dif = np.abs(h - old)
        old = h
        ksi = iri(h, Tmm10, cot_alpha)
    check_validity_range(h, Tmm10, N_waves, cot_alpha)
    return h
