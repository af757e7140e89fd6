"""Hudson formula for a single layer unit ; KD in breaking waves from the seabed slope graph (floored to 0.1)"""
import numpy as np
import ref.functions.structural.stability_rock_armour.hudson1959 as hudson
from ref.functions.core_utility import check_variable_validity_range as check


def check_validity_range(cot_alpha=np.nan, seabed_slope_perc=np.nan):
    if not np.isnan(cot_alpha):
        check("Cotangent of the front-side slope of the structure", "Accropode II Hudson 1959", cot_alpha, 1.33, 1.5)
    if not np.isnan(seabed_slope_perc):
        check("Seabed slope in percentage", "Accropode II documentation", seabed_slope_perc, 0, 10)


def calculate_unit_mass_M(Hs, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
    check_validity_range(cot_alpha=cot_alpha)
    return hudson.calculate_median_rock_mass_M50_no_damage(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)


def calculate_significant_wave_height_Hs(M, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
    check_validity_range(cot_alpha=cot_alpha)
    return hudson.calculate_significant_wave_height_Hs_no_damage(M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)


def calculate_KD_breaking_trunk_from_seabed_slope(seabed_slope_perc):
    check_validity_range(seabed_slope_perc=seabed_slope_perc)
    k = np.interp(seabed_slope_perc, np.array([0, 1, 5, 10]), np.array([16, 16, 10.66, 9]))
    return np.floor(k / 0.1) * 0.1


def calculate_KD_nonbreaking_trunk_from_seabed_slope():
    return 16.0
