"""Modified Van der Meer (Van Gent et al., 2003)"""
import numpy as np
from ref.functions.core_physics import (calculate_buoyant_density_Delta as buoy, calculate_Iribarren_number_ksi as iri,
                                        calculate_critical_Iribarren_number_ksi_mc as crit, check_usage_Dn50_or_M50)
from ref.functions.core_utility import check_variable_validity_range as check

F = "Modified Van der Meer (Van Gent et al., 2003)"


def check_validity_range(Hs=np.nan, H2p=np.nan, Tmm10=np.nan, N_waves=np.nan, cot_alpha=np.nan, P=np.nan, Dn50=np.nan,
                         rho_armour=np.nan, rho_water=1025.0):
    if not np.isnan(P):
        check("Notional permeability P", F, P, 0.1, 0.6)
    if not np.isnan(Hs * Dn50 * rho_armour):
        check("Stability number Ns", F, Hs / (buoy(rho_armour, rho_water) * Dn50), 0.5, 4.5)
    if not np.isnan(Hs * Tmm10 * cot_alpha):
        check("Iribarren number ksi_m-1,0", F, iri(Hs, Tmm10, cot_alpha), 1.3, 15.0)
    if not np.isnan(cot_alpha):
        check("Cotangent of outer structure slope cot_alpha", F, cot_alpha, 2.0, 4.0)
    if not np.isnan(N_waves):
        check("Number of waves N_waves", F, N_waves, 0, 3000)
    if not np.isnan(Hs * H2p):
        check("Ratio H2%/Hs", F, H2p / Hs, 1.2, 1.4)


def calculate_damage_number_S(Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=np.nan, M50=np.nan, c_pl=8.4,
                              c_s=1.3, rho_water=1025.0):
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    ksi = iri(Hs, Tmm10, cot_alpha)
    n = H2p / (buoy(rho_armour, rho_water) * D)
    pl = (n / (c_pl * P ** 0.18) * ksi ** 0.5) ** 5 * np.sqrt(N_waves)
    su = (n / (c_s * P ** -0.13 * np.sqrt(cot_alpha) * ksi ** P)) ** 5 * np.sqrt(N_waves)
    check_validity_range(Hs=Hs, H2p=H2p, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, P=P, Dn50=D,
                         rho_armour=rho_armour, rho_water=rho_water)
    return pl if ksi < crit(c_pl, c_s, P, cot_alpha) or cot_alpha >= 4 else su


def calculate_nominal_rock_diameter_Dn50(Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.4, c_s=1.3,
                                         rho_water=1025.0):
    ksi = iri(Hs, Tmm10, cot_alpha)
    h = H2p / buoy(rho_armour, rho_water)
    u = (S / np.sqrt(N_waves)) ** 0.2
    pl = h / (c_pl * P ** 0.18 * u) * ksi ** 0.5
    su = h / (c_s * P ** -0.13 * u * np.sqrt(cot_alpha) * ksi ** P)
    r = pl if ksi < crit(c_pl, c_s, P, cot_alpha) or cot_alpha >= 4 else su
    check_validity_range(Hs=Hs, H2p=H2p, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, P=P, Dn50=r,
                         rho_armour=rho_armour, rho_water=rho_water)
    return r


def calculate_significant_wave_height_Hs(ratio_H2p_Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=np.nan,
                                         M50=np.nan, c_pl=8.4, c_s=1.3, g=9.81, rho_water=1025.0):
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    d = buoy(rho_armour, rho_water) * D / ratio_H2p_Hs
    u = (S / np.sqrt(N_waves)) ** 0.2
    k = 2 * np.pi / (g * Tmm10 ** 2)
    pl = (d * c_pl * P ** 0.18 * u * np.sqrt(cot_alpha) * k ** 0.25) ** (4 / 3)
    su = (d * c_s * P ** -0.13 * u * np.sqrt(cot_alpha) * cot_alpha ** -P * k ** (-P / 2)) ** (1 / (1 + P / 2))
    kc = crit(c_pl, c_s, P, cot_alpha)
    r = pl if (iri(pl, Tmm10, cot_alpha) < kc and iri(su, Tmm10, cot_alpha) < kc) or cot_alpha >= 4 else su
    check_validity_range(Hs=r, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, P=P, Dn50=D, rho_armour=rho_armour,
                         rho_water=rho_water)
    return r
