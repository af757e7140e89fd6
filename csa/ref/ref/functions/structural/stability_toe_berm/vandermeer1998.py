"""Van der Meer (1998): Hs / (Delta Dn50) = (2 + 6.2 (ht/h)^2.7) Nod^0.15"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy
from ref.functions.core_utility import check_variable_validity_range as check

F = "van der Meer (1998)"


def check_validity(Hs=np.nan, ht=np.nan, h=np.nan, Dn50=np.nan, Nod=np.nan, Delta=np.nan):
    if not np.isnan(Hs):
        check("Significant wave height Hs", F, Hs, 0.01, 20)
    if not np.isnan(ht * h):
        check("Relative toe height (h)", F, ht / h, 0.4, 0.9)
    if not np.isnan(ht * Dn50):
        check("Relative toe height (Dn50)", F, ht / Dn50, 3, 25)
    if not np.isnan(Nod * Dn50 * Hs * Delta):
        check("Nod vs Ns", F, Hs / (Delta * Dn50) / Nod ** 0.15, 2, np.inf)


def calculate_damage_Nod(Hs, ht, h, Dn50, rho_rock, rho_water):
    D = buoy(rho_rock, rho_water)
    r = (Hs / (D * Dn50) / (2 + 6.2 * (ht / h) ** 2.7)) ** (1 / 0.15)
    check_validity(Hs, ht, h, Dn50, r, D)
    return r


def calculate_nominal_diameter_Dn50(Hs, ht, h, Nod, rho_rock, rho_water):
    D = buoy(rho_rock, rho_water)
    r = Hs / D / (2 + 6.2 * (ht / h) ** 2.7) / Nod ** 0.15
    check_validity(Hs, ht, h, r, Nod, D)
    return r


def calculate_wave_height_Hs(Dn50, ht, h, Nod, rho_rock, rho_water):
    D = buoy(rho_rock, rho_water)
    r = D * Dn50 * (2 + 6.2 * (ht / h) ** 2.7) * Nod ** 0.15
    check_validity(r, ht, h, Dn50, Nod, D)
    return r


def calculate_depth_above_toe_ht(Hs, Dn50, h, Nod, rho_rock, rho_water):
    D = buoy(rho_rock, rho_water)
    x = (Hs / (D * Dn50 * Nod ** 0.15) - 2) / 6.2
    r = h * x ** (1 / 2.7) if x > 0 else np.nan
    check_validity(Hs, r, h, Dn50, Nod, D)
    return r
