"""Van der Meer (1988), with H2%, and the correction for the number of waves"""
import numpy as np
from ref.functions.core_physics import (calculate_buoyant_density_Delta as buoy, calculate_Iribarren_number_ksi as iri,
                                        calculate_critical_Iribarren_number_ksi_mc as crit, check_usage_Dn50_or_M50,
                                        calculate_wave_steepness_s)
from ref.functions.core_utility import check_variable_validity_range as check

F = "Van der Meer (1988)"


def check_validity_range(Hs=np.nan, H2p=np.nan, Tp=np.nan, N_waves=np.nan, cot_alpha=np.nan, P=np.nan, rho_armour=np.nan):
    if not np.isnan(P):
        check("Notional permeability P", F, P, 0.1, 0.6)
    if not np.isnan(cot_alpha):
        check("Cotangent of outer structure slope cot_alpha", F, cot_alpha, 1.1, 7.0)
    if not np.isnan(Hs * Tp):
        check("Wave steepness s0p", F, calculate_wave_steepness_s(Hs, Tp), 0.005, 0.06)
    if not np.isnan(N_waves):
        check("Number of waves N_waves", F, N_waves, 0, 7500)
    if not np.isnan(Hs * H2p):
        check("Ratio H2%/Hs", F, H2p / Hs, 1.1, 1.4)
    if not np.isnan(rho_armour):
        check("Density of armour layer rock rho_armour", F, rho_armour, 2000, 3100)


def calculate_correction_term_gamma_N(N_waves):
    if N_waves > 5000:
        return np.sqrt(N_waves / 5000) / (1.3 * (1 - np.exp(-0.00031 * N_waves)))
    return np.sqrt(1000 / N_waves) if N_waves < 1000 else 1.0


def calculate_damage_number_S(Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, Dn50=np.nan, M50=np.nan, c_pl=8.7, c_s=1.4,
                              rho_water=1025.0):
    # H2%/(Delta Dn50) = c_pl P^0.18 (gN S/sqrt N)^0.2 ksi^-0.5  |  c_s P^-0.13 (gN S/sqrt N)^0.2 sqrt(cot) ksi^P
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    ksi = iri(Hs, Tm, cot_alpha)
    n = H2p / (buoy(rho_armour, rho_water) * D)
    u = np.sqrt(N_waves) / calculate_correction_term_gamma_N(N_waves)
    pl = (n / (c_pl * P ** 0.18) * ksi ** 0.5) ** 5 * u
    su = (n / (c_s * P ** -0.13 * np.sqrt(cot_alpha) * ksi ** P)) ** 5 * u
    check_validity_range(P=P, Hs=Hs, cot_alpha=cot_alpha, H2p=H2p, rho_armour=rho_armour, N_waves=N_waves)
    return pl if ksi < crit(c_pl, c_s, P, cot_alpha) or cot_alpha >= 4 else su


def calculate_nominal_rock_diameter_Dn50(Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.7, c_s=1.4,
                                         rho_water=1025.0):
    ksi = iri(Hs, Tm, cot_alpha)
    h = H2p / buoy(rho_armour, rho_water)
    u = (calculate_correction_term_gamma_N(N_waves) * S / np.sqrt(N_waves)) ** 0.2
    pl = h / (c_pl * P ** 0.18 * u) * ksi ** 0.5
    su = h / (c_s * P ** -0.13 * u * np.sqrt(cot_alpha) * ksi ** P)
    check_validity_range(P=P, Hs=Hs, cot_alpha=cot_alpha, H2p=H2p, rho_armour=rho_armour, N_waves=N_waves)
    return pl if ksi < crit(c_pl, c_s, P, cot_alpha) or cot_alpha >= 4 else su


def calculate_significant_wave_height_Hs(ratio_H2p_Hs, Tm, N_waves, cot_alpha, P, rho_armour, S, Dn50=np.nan, M50=np.nan,
                                         c_pl=8.7, c_s=1.4, g=9.81, rho_water=1025.0):
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_armour)
    d = buoy(rho_armour, rho_water) * D / ratio_H2p_Hs
    u = (calculate_correction_term_gamma_N(N_waves) * S / np.sqrt(N_waves)) ** 0.2
    k = 2 * np.pi / (g * Tm ** 2)
    pl = (d * c_pl * P ** 0.18 * u * np.sqrt(cot_alpha) * k ** 0.25) ** (4 / 3)
    su = (d * c_s * P ** -0.13 * u * np.sqrt(cot_alpha) * cot_alpha ** -P * k ** (-P / 2)) ** (1 / (1 + P / 2))
    kc = crit(c_pl, c_s, P, cot_alpha)
    r = pl if (iri(pl, Tm, cot_alpha) < kc and iri(su, Tm, cot_alpha) < kc) or cot_alpha >= 4 else su
    check_validity_range(Hs=r, N_waves=N_waves, cot_alpha=cot_alpha, P=P, rho_armour=rho_armour)
    return r
