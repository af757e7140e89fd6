"""Etemad-Shahidi et al. (2021): Ns = c1 + c2 (ht/h)^c3 s^c4 Nod^c5 (Bt/Hs)^c6 (1 - c7 m)"""
import numpy as np
from ref.functions.core_physics import (calculate_buoyant_density_Delta as buoy, calculate_stability_number_Ns,
                                        calculate_wave_steepness_s as steep)
from ref.functions.core_utility import check_variable_validity_range as check

F = "Etemad-Shahidi et al. (2021)"


def check_validity(Hs=np.nan, Tmm10=np.nan, h=np.nan, ht=np.nan, Bt=np.nan, Dn50=np.nan, m=np.nan, Nod=np.nan,
                   cot_alpha_armour_slope=np.nan, rho_armour=np.nan, rho_water=1025.0):
    if not np.isnan(cot_alpha_armour_slope):
        check("Armour slope cot_alpha_armour_slope", F, cot_alpha_armour_slope, 1.5, 2.0)
    if not np.isnan(Hs * Tmm10):
        check("Wave steepness sm-1,0", F, steep(Hs, Tmm10), 0.009, 0.061)
    if not np.isnan(h * ht):
        check("Relative water depth above the toe ht/h", F, ht / h, 0.39, 0.88)
    if not np.isnan(Hs * ht):
        check("Relative water depth above the toe ht/Hs", F, ht / Hs, 0.48, 2.58)
    if not np.isnan(Dn50 * ht):
        check("Relative water depth above the toe ht/Dn50", F, ht / Dn50, 1.97, 23.4)
    if not np.isnan(Hs * Bt):
        check("Relative toe width Bt/Hs", F, Bt / Hs, 0.17, 1.92)
    if not np.isnan(h * Hs):
        check("Relative water depth h/Hs", F, h / Hs, 1.22, 3.0)
    if not np.isnan(Hs * Dn50 * rho_armour):
        check("Stability number Ns", F, calculate_stability_number_Ns(Hs, Dn50, rho_armour, rho_water), 1.58, 10.0)
    if not np.isnan(rho_armour):
        check("Buoyant density Delta", F, buoy(rho_armour, rho_water), 1.65, 1.75)
    if not np.isnan(m):
        check("Foreshore slope m", F, m, 0.02, 0.1)
    if not np.isnan(Nod):
        check("Damage parameter Nod", F, Nod, 0.5, 3.79)


def calculate_damage_Nod(Hs, Tmm10, h, ht, Bt, m, Dn50, rho_rock, rho_water=1025.0, g=9.81, c1=1.2, c2=11.2, c3=7 / 4,
                         c4=1 / 6, c5=2 / 5, c6=-1 / 10, c7=3.7):
    Ns = calculate_stability_number_Ns(Hs, Dn50, rho_rock, rho_water)
    r = ((Ns - c1) / (c2 * (ht / h) ** c3 * steep(Hs, Tmm10, g) ** c4 * (Bt / Hs) ** c6 * (1 - c7 * m))) ** (1 / c5)
    check_validity(Hs, Tmm10, h, ht, Bt, Dn50, m, r, np.nan, rho_rock, rho_water)
    return r


def calculate_nominal_diameter_Dn50(Hs, Tmm10, h, ht, Bt, Nod, m, rho_rock, rho_water=1025.0, g=9.81, c1=1.2, c2=11.2,
                                    c3=7 / 4, c4=1 / 6, c5=2 / 5, c6=-1 / 10, c7=3.7):
    Ns = c1 + c2 * (ht / h) ** c3 * steep(Hs, Tmm10, g) ** c4 * Nod ** c5 * (Bt / Hs) ** c6 * (1 - c7 * m)
    r = Hs / buoy(rho_rock, rho_water) / Ns
    check_validity(Hs, Tmm10, h, ht, Bt, r, m, Nod, np.nan, rho_rock, rho_water)
    return r


def calculate_significant_wave_height_Hs(Tmm10, h, ht, Bt, Nod, m, Dn50, rho_rock, rho_water=1025.0, g=9.81, c1=1.2,
                                         c2=11.2, c3=7 / 4, c4=1 / 6, c5=2 / 5, c6=-1 / 10, c7=3.7, smm10_init=0.03,
                                         max_iter=1000):
    H = smm10_init * Tmm10**2 * g / (2 * np.pi)
    s = smm10_init
    old = H
    dif = np.inf
    while np.max(dif) > 1e-3:
        H = buoy(rho_rock, rho_water) * Dn50 * (
            c1 + c2 * (ht / h) ** c3 * s ** c4 * Nod ** c5 * (Bt / H) ** c6 * (1 - c7 * m))
        dif = np.abs(H - old)
        old = H
        s = steep(H, Tmm10, g)
    check_validity(H, Tmm10, h, ht, Bt, Dn50, m, Nod, np.nan, rho_rock, rho_water)
    return H
