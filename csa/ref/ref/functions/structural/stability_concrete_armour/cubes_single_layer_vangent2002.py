"""Van Gent (2002): Ns = 2.9 (start of damage), 3.5 (failure)"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy


def check_validity_range():
    pass


def calculate_unit_mass_M_start_of_damage(Hs, rho_water, rho_armour, Ns=2.9):
    return rho_armour * (Hs / (Ns * buoy(rho_armour, rho_water))) ** 3


def calculate_unit_mass_M_failure(Hs, rho_water, rho_armour, Ns=3.5):
    return rho_armour * (Hs / (Ns * buoy(rho_armour, rho_water))) ** 3


def calculate_significant_wave_height_Hs_start_of_damage(M, rho_water, rho_armour, Ns=2.9):
    return Ns * buoy(rho_armour, rho_water) * (M / rho_armour) ** (1 / 3)


def calculate_significant_wave_height_Hs_failure(M, rho_water, rho_armour, Ns=3.5):
    return Ns * buoy(rho_armour, rho_water) * (M / rho_armour) ** (1 / 3)
