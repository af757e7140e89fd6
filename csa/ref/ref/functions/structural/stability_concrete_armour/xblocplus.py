"""V = f (Hs / (2.5 Delta))^3 with the correction factors of the guidelines of Delta Marine Consultants"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy


def check_validity_range():
    pass


def calculate_wave_height_Hs_from_V(V, rho_water, rho_armour, total_correction_factor=1.0):
    return 2.5 * buoy(rho_armour, rho_water) * (V / total_correction_factor) ** (1 / 3)


def calculate_wave_height_Hs_from_M(M, rho_water, rho_armour, total_correction_factor=1.0):
    return 2.5 * buoy(rho_armour, rho_water) * (M / rho_armour / total_correction_factor) ** (1 / 3)


def calculate_unit_volume_V(Hs, rho_water, rho_armour, total_correction_factor=1.0):
    return total_correction_factor * (Hs / (2.5 * buoy(rho_armour, rho_water))) ** 3


def calculate_unit_mass_M(Hs, rho_water, rho_armour, total_correction_factor=1.0):
    return rho_armour * total_correction_factor * (Hs / (2.5 * buoy(rho_armour, rho_water))) ** 3


def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(cot_alpha):
    if cot_alpha <= 10:
        return 2.0
    if cot_alpha <= 15:
        return 1.5
    if cot_alpha <= 20:
        return 1.25
    if cot_alpha <= 30:
        return 1.1
    return 1.0


def calculate_correctionfactor_unit_mass_M_by_percslope_seabed(perc_slope):
    return calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(100 / perc_slope)


def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(rel_freeboard):
    return 1.5 if rel_freeboard < 0.5 else 1.25 if rel_freeboard < 1 else 1.0


def switch_correctionfactor_unit_mass_M_by_core_permeability(low_core_permeability=False, core_impermeable=False):
    return 1.5 if core_impermeable else 1.25 if low_core_permeability else 1.0
