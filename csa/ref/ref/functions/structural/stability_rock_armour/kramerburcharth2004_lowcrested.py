"""Kramer & Burcharth (2004): Hs/(Delta Dn50) = 0.06 (Rc/Dn50)^2 - 0.23 Rc/Dn50 + 1.36"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy, check_usage_Dn50_or_M50
from ref.functions.core_utility import check_variable_validity_range as check


def check_validity_range(Rc=np.nan, Dn50=np.nan):
    if not np.isnan(Rc * Dn50):
        check("Relative crest height Rc / Dn50", "Kramer & Burcharth, 2004", Rc / Dn50, -3.1, 1.5)


def calculate_nominal_rock_diameter_Dn50(Hs, Rc, rho_armour, Ns_init=2.0, max_iter=1000, tolerance=1e-5):
    d = Hs / (buoy(rho_armour, 1025) * Ns_init)
    dif = np.inf
    old = np.inf
    while np.max(dif) > tolerance:
        d = (Hs / buoy(rho_armour, 1025) - 0.06 * Rc ** 2 / d + 0.23 * Rc) / 1.36
        dif = np.abs(d - old)
        old = d
    check_validity_range(Rc, d)
    return d


def calculate_significant_wave_height_Hs(Rc, rho_armour, Dn50=np.nan, M50=np.nan):
    d = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    check_validity_range(Rc, d)
    return buoy(rho_armour, 1025) * (0.06 * Rc ** 2 / d - 0.23 * Rc + 1.36 * d)


def calculate_crest_freeboard_Rc(Hs, rho_armour, Dn50=np.nan, M50=np.nan, Rc_Dn50_init=-1.0, max_iter=1000,
                                 tolerance=1e-5):
    d = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    r = Rc_Dn50_init * d
    dif = np.inf
    old = np.inf
    while np.max(dif) > tolerance:
        r = (Hs / buoy(rho_armour, 1025) - 1.36 * d) / (0.06 * r / d - 0.23)
        dif = np.abs(r - old)
        old = r
    check_validity_range(r, d)
    return r
