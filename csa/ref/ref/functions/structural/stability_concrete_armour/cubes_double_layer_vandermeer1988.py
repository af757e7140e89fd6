"""Van der Meer (1988) cubes: Hs/(Delta Dn) = (6.7 Nod^0.4 / N^0.3 + 1.0) s0m^-0.1"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy, calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "Double layer cubes vander Meer 1988"


def check_validity_range(Hs=np.nan, Tm=np.nan, rho_armour=np.nan, N_waves=np.nan, cot_alpha=np.nan):
    if not np.isnan(Hs):
        check("Significant wave height Hs", F, Hs, 0.01, 20)
    if not np.isnan(N_waves):
        check("Number of waves N_waves", F, N_waves, 0, 7500)
    if not np.isnan(Tm):
        check("Wave period Tm", F, Tm, 0.5, 30)
    if not np.isnan(rho_armour):
        check("Armour density rho_armour", F, rho_armour, 2000, 3100)
    if not np.isnan(cot_alpha):
        check("Cotangent of outer structure slope cot_alpha", F, cot_alpha, 1.5, 1.5)
    if not np.isnan(Hs * Tm):
        check("Wave steepness using Tm and Hs", F, calculate_wave_steepness_s(Hs, Tm), 0.005, 0.07)


def _ns(Nod, N_waves, s):
    return (6.7 * Nod ** 0.4 / N_waves ** 0.3 + 1) * s ** -0.1


def calculate_nominal_diameter_Dn_vanDerMeer1988(Hs, Tm, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    check_validity_range(Hs, Tm, rho_armour, N_waves, cot_alpha)
    return Hs / (buoy(rho_armour, rho_water) * _ns(Nod, N_waves, calculate_wave_steepness_s(Hs, Tm)))


def calculate_wave_height_Hs_vanDerMeer1988(Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    h = buoy(rho_armour, rho_water) * Dn * _ns(Nod, N_waves, s0m)
    check_validity_range(h, np.sqrt(2 * np.pi * h / (9.81 * s0m)), rho_armour, N_waves, cot_alpha)
    return h


def calculate_damage_Nod_vanDerMeer1988(Hs, Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha):
    ns = Hs / (buoy(rho_armour, rho_water) * Dn)
    check_validity_range(Hs, np.sqrt(2 * np.pi * Hs / (9.81 * s0m)), rho_armour, N_waves, cot_alpha)
    return ((ns * s0m ** 0.1 - 1) / 6.7 * N_waves ** 0.3) ** 2.5
