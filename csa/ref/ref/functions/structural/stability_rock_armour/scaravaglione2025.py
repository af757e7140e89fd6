"""Scaravaglione et al. (2025): Ns = c sqrt(cot) (1 + Dn50,core/Dn50) s^0.1 (S/sqrt N)^0.2"""
import numpy as np
from ref.functions.core_physics import (calculate_buoyant_density_Delta as buoy, calculate_Iribarren_number_ksi as iri,
                                        check_usage_Dn50_or_M50, calculate_wave_steepness_s)
from ref.functions.core_utility import check_variable_validity_range as check

F = "Scaravaglione et al. (2025)"


def check_validity_range(Hm0=np.nan, Tmm10=np.nan, N_waves=np.nan, cot_alpha=np.nan, P=np.nan, Dn50=np.nan,
                         Dn50_core=np.nan, rho_armour=np.nan, rho_water=1025.0):
    if not np.isnan(P):
        check("Notional permeability P", F, P, 0.37, 0.55)
    if not np.isnan(Hm0 * Dn50 * rho_armour):
        check("Stability number Ns", F, Hm0 / (buoy(rho_armour, rho_water) * Dn50), 1.47, 3.44)
    if not np.isnan(Hm0 * Tmm10):
        check("Wave steepness s_m-1,0", F, calculate_wave_steepness_s(Hm0, Tmm10), 0.02, 0.049)
    if not np.isnan(Hm0 * Tmm10 * cot_alpha):
        check("Iribarren number ksi_m-1,0", F, iri(Hm0, Tmm10, cot_alpha), 1.3, 15.0)
    if not np.isnan(cot_alpha):
        check("Cotangent of outer structure slope cot_alpha", F, cot_alpha, 2.0, 2.0)
    if not np.isnan(N_waves):
        check("Number of waves N_waves", F, N_waves, 652, 4064)
    if not np.isnan(Dn50 * Dn50_core):
        check("Ratio core to armour Dn50_core / Dn50", F, Dn50_core / Dn50, 0.21, 0.71)


def calculate_damage_number_S(Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, Dn50=np.nan, Dn50_core=np.nan,
                              M50=np.nan, M50_core=np.nan, c_VGnew=3.3, rho_water=1025.0):
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    Dc = check_usage_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    s = calculate_wave_steepness_s(Hm0, Tmm10)
    check_validity_range(Hm0=Hm0, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, Dn50=D, Dn50_core=Dc,
                         rho_armour=rho_armour, rho_water=rho_water)
    return (Hm0 / (buoy(rho_armour, rho_water) * D)
            / (c_VGnew * np.sqrt(cot_alpha) * (1 + Dc / D) * s ** 0.1)) ** 5 * np.sqrt(N_waves)


def calculate_nominal_rock_diameter_Dn50(Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50_core=np.nan,
                                         M50_core=np.nan, c_VGnew=3.3, rho_water=1025.0):
    Dc = check_usage_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    s = calculate_wave_steepness_s(Hm0, Tmm10)
    d = (Hm0 / buoy(rho_armour, rho_water)
         / (c_VGnew * np.sqrt(cot_alpha) * s ** 0.1 * (S / np.sqrt(N_waves)) ** 0.2) - Dc)
    check_validity_range(Hm0=Hm0, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, Dn50=d, Dn50_core=Dc,
                         rho_armour=rho_armour, rho_water=rho_water)
    return d


def calculate_significant_wave_height_Hm0(Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50=np.nan,
                                          Dn50_core=np.nan, M50=np.nan, M50_core=np.nan, c_VGnew=3.3, g=9.81,
                                          rho_water=1025.0):
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    Dc = check_usage_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    h = (buoy(rho_armour, rho_water) * D * c_VGnew * np.sqrt(cot_alpha) * (1 + Dc / D)
         * (2 * np.pi / (g * Tmm10 ** 2)) ** 0.1 * (S / np.sqrt(N_waves)) ** 0.2) ** (1 / 0.9)
    check_validity_range(Hm0=h, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, Dn50=D, Dn50_core=Dc,
                         rho_armour=rho_armour, rho_water=rho_water)
    return h
