"""Gerding (1993): Hs / (Delta Dn50) = (1.6 + 0.24 ht/Dn50) Nod^0.15"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy
from ref.functions.core_utility import check_variable_validity_range as check

F = "Gerding (1993)"


def check_validity(ht=np.nan, h=np.nan, Dn50=np.nan):
    if not np.isnan(ht * h):
        check("Relative toe height (h)", F, ht / h, 0.4, 0.9)
    if not np.isnan(ht * Dn50):
        check("Relative toe height (Dn50)", F, ht / Dn50, 3, 25)


def calculate_damage_Nod(Hs, ht, h, Dn50, rho_rock, rho_water):
    check_validity(ht, h, Dn50)
    return (Hs / (buoy(rho_rock, rho_water) * Dn50) / (1.6 + 0.24 * ht / Dn50)) ** (1 / 0.15)


def calculate_nominal_diameter_Dn50(Hs, ht, h, Nod, rho_rock, rho_water):
    r = (Hs / (buoy(rho_rock, rho_water) * Nod ** 0.15) - 0.24 * ht) / 1.6
    check_validity(ht, h, r)
    return r


def calculate_wave_height_Hs(Dn50, ht, h, Nod, rho_rock, rho_water):
    check_validity(ht, h, Dn50)
    return buoy(rho_rock, rho_water) * Dn50 * (1.6 + 0.24 * ht / Dn50) * Nod ** 0.15


def calculate_depth_above_toe_ht(Hs, Dn50, h, Nod, rho_rock, rho_water):
    r = (Hs / (buoy(rho_rock, rho_water) * Nod ** 0.15) - 1.6 * Dn50) / 0.24
    check_validity(r, h, Dn50)
    return r
