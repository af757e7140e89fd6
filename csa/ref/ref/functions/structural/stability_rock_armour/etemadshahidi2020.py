"""Etemad-Shahidi et al. (2020)"""
import numpy as np
from ref.functions.core_physics import (calculate_buoyant_density_Delta as buoy, calculate_Iribarren_number_ksi as iri,
                                        check_usage_Dn50_or_M50, calculate_wave_steepness_s)
from ref.functions.core_utility import check_variable_validity_range as check

F = "Etemad-Shahidi et al., 2020"


def check_validity_range(Hs=np.nan, Tmm10=np.nan, N_waves=np.nan, cot_alpha=np.nan, P=np.nan, S=np.nan, Dn50=np.nan,
                         Dn50_core=np.nan, rho_armour=np.nan, rho_water=1025.0):
    if not np.isnan(Hs * Tmm10):
        check("Wave steepness sm-1,0", F, calculate_wave_steepness_s(Hs, Tmm10), 0.003, 0.088)
    if not np.isnan(Hs * Tmm10 * cot_alpha):
        check("Iribarren number ksi_m-1,0", F, iri(Hs, Tmm10, cot_alpha), 0.65, 8.18)
    if not np.isnan(cot_alpha):
        check("Cotangent of outer structure slope cot_alpha", F, cot_alpha, 1.5, 6.0)
    if not np.isnan(N_waves):
        check("Number of waves N_waves", F, N_waves, 500, 5000)
    if not np.isnan(rho_armour):
        check("Buoyant density Delta", F, buoy(rho_armour, rho_water), 0.92, 2.05)
    if not np.isnan(P):
        check("Permeability P", F, P, 0.1, 0.6)
    if not np.isnan(Dn50 * Dn50_core):
        check("Relative core diameter Dn50_core / Dn50", F, Dn50_core / Dn50, 0.0, 1.0)
    if not np.isnan(Hs * Dn50 * rho_armour):
        check("Stability number Ns", F, Hs / (buoy(rho_armour, rho_water) * Dn50), 1.0, 4.3)
    if not np.isnan(S):
        check("Damage number S", F, S, 2.0, 12.0)


def calculate_permeability_coefficient_Cp(Dn50, Dn50_core):
    return (1 + (Dn50_core / Dn50) ** 0.3) ** 0.6


def _dep(m, use):
    if not use:
        return 1.0
    if np.isnan(m):
        raise ValueError("m")
    return 1 - 3 * m


def calculate_damage_number_S(Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=np.nan, M50=np.nan, Dn50_core=np.nan,
                              M50_core=np.nan, rho_core=np.nan, rho_water=1025.0, m=np.nan,
                              use_depth_limited_version=False):
    # Ns = 4.5 Cp N^-1/10 S^1/6 ksi^-7/12 (1-3m) (plunging) | 3.9 Cp N^-1/10 S^1/6 ksi^-1/3 (1-3m) (surging, ksi >= 1.8)
    f = _dep(m, use_depth_limited_version)
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    Dc = check_usage_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    ksi = iri(Hs, Tmm10, cot_alpha)
    n = Hs / (buoy(rho_armour, rho_water) * D) / (calculate_permeability_coefficient_Cp(D, Dc) * f) * N_waves ** 0.1
    r = (n / 3.9 * ksi ** (1 / 3)) ** 6 if ksi >= 1.8 else (n / 4.5 * ksi ** (7 / 12)) ** 6
    check_validity_range(Hs=Hs, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, Dn50=D, Dn50_core=Dc, S=r,
                         rho_armour=rho_armour, rho_water=rho_water)
    return r


def _dn(c, e, Hs, Delta, N_waves, S, ksi, f, Dc, Cp_init, tolerance):
    dif = np.inf
    old = np.inf
    cp = Cp_init
    while np.max(dif) > tolerance:
        d = Hs / Delta / (c * cp * f) * N_waves ** 0.1 * S ** (-1 / 6) * ksi ** e
        cp = calculate_permeability_coefficient_Cp(d, Dc)
        dif = np.abs(d - old)
        old = d
    return d


def calculate_nominal_rock_diameter_Dn50(Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50_core=np.nan, M50_core=np.nan,
                                         rho_core=np.nan, m=np.nan, use_depth_limited_version=False, Cp_init=0.5,
                                         max_iter=1000, tolerance=1e-5):
    f = _dep(m, use_depth_limited_version)
    Dc = check_usage_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    ksi = iri(Hs, Tmm10, cot_alpha)
    Delta = buoy(rho_armour, 1025)
    su = _dn(3.9, 1 / 3, Hs, Delta, N_waves, S, ksi, f, Dc, Cp_init, tolerance)
    pl = _dn(4.5, 7 / 12, Hs, Delta, N_waves, S, ksi, f, Dc, Cp_init, tolerance)
    r = su if ksi >= 1.8 else pl
    check_validity_range(Hs=Hs, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, Dn50=r, Dn50_core=Dc, S=S,
                         rho_armour=rho_armour)
    return r


def calculate_significant_wave_height_Hs(Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=np.nan, M50=np.nan,
                                         Dn50_core=np.nan, M50_core=np.nan, rho_core=np.nan, m=np.nan,
                                         use_depth_limited_version=False, g=9.81):
    f = _dep(m, use_depth_limited_version)
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    Dc = check_usage_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    k = np.sqrt(2 * np.pi / g) / Tmm10 * cot_alpha
    b = buoy(rho_armour, 1025) * D * calculate_permeability_coefficient_Cp(D, Dc) * f * N_waves ** -0.1 * S ** (1 / 6)
    su = (3.9 * b * k ** (1 / 3)) ** (6 / 5)
    pl = (4.5 * b * k ** (7 / 12)) ** (24 / 17)
    r = pl if iri(pl, Tmm10, cot_alpha) < 1.8 and iri(su, Tmm10, cot_alpha) < 1.8 else su
    check_validity_range(Hs=r, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, Dn50=D, Dn50_core=Dc, S=S,
                         rho_armour=rho_armour)
    return r
