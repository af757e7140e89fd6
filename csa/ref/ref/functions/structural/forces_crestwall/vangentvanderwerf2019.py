"""Van Gent & Van der Werf (2019) crest wall forces"""
import numpy as np
from ref.functions.core_utility import check_variable_validity_range as check
from ref.functions.hydraulic.wave_runup.vangent2001 import calculate_wave_runup_height_zXp as runup

F = "Van Gent and Van der Werf 2019"


def check_validity(Rc=np.nan, Ac=np.nan, Hm0=np.nan, Fb=np.nan, beta=np.nan):
    if not np.isnan(Hm0 * Rc * Ac):
        check("(Rc-Ac)/Hm0", F, (Rc - Ac) / Hm0, 0.26, 0.77)
    if not np.isnan(Rc * Ac):
        check("Rc/Ac", F, Rc / Ac, 1.27, 1.55)
    if not np.isnan(Hm0 * Rc):
        check("Rc/Hm0", F, Rc / Hm0, 0.79, 2.18)
    if not np.isnan(Hm0 * Fb):
        check("Fb/Hm0", F, Fb / Hm0, 0.0, 0.62)
    if not np.isnan(beta):
        check("beta", F, beta, 0.0, 75.0)


def calculate_influence_oblique_waves_force_gamma_F_beta(z2p, Ac, beta, gamma_A):
    return ((0.5 * np.cos(np.deg2rad(beta)) ** 2 + 0.5) * z2p - gamma_A * Ac) / (z2p - gamma_A * Ac)


def calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta(z2p, Ac, beta, gamma_A=1.0):
    return calculate_influence_oblique_waves_force_gamma_F_beta(z2p, Ac, beta, gamma_A)


def calculate_influence_oblique_waves_vertical_force_gamma_FV_beta(z2p, Ac, beta, gamma_A=0.75):
    return calculate_influence_oblique_waves_force_gamma_F_beta(z2p, Ac, beta, gamma_A)


def calculate_influence_oblique_waves_gamma_beta(beta, c_beta=0.5):
    return (1 - c_beta) * np.cos(np.deg2rad(beta)) ** 2 + c_beta


def calculate_FH2p_perpendicular_from_z2p(Hm0, z2p, Ac, Rc, Hwall, rho_water=1025.0, g=9.81, cFH=1.0):
    check_validity(Rc, Ac, Hm0)
    return np.maximum(cFH * rho_water * g * Hwall * (z2p - Ac), 0.0)


def calculate_FV2p_perpendicular_from_z2p(z2p, Ac, Bwall, Fb, cFV=0.4, cFb=0.5, rho_water=1025.0, g=9.81):
    return np.maximum(cFV * rho_water * g * Bwall * (z2p - 0.75 * Ac) * (1 - (Fb / Ac) ** cFb), 0.0)


def calculate_FH2p_perpendicular(Hm0, Tmm10, cot_alpha, Ac, Rc, Hwall, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0,
                                 rho_water=1025.0, g=9.81, cFH=1.0):
    z = runup(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return calculate_FH2p_perpendicular_from_z2p(Hm0, z, Ac, Rc, Hwall, rho_water, g, cFH)


def calculate_FH2p_oblique(Hm0, Tmm10, beta, cot_alpha, Ac, Rc, Hwall, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0,
                           cFH=1.0, rho_water=1025.0, g=9.81):
    z = runup(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    check_validity(Rc, Ac, Hm0, np.nan, beta)
    return (calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta(z, Ac, beta)
            * calculate_FH2p_perpendicular_from_z2p(Hm0, z, Ac, Rc, Hwall, rho_water, g, cFH))


def calculate_FV2p_perpendicular(Hm0, Tmm10, cot_alpha, Ac, Bwall, Fb, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0,
                                 cFV=0.4, cFb=0.5, rho_water=1025.0, g=9.81):
    z = runup(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    check_validity(np.nan, Ac, Hm0, Fb)
    return calculate_FV2p_perpendicular_from_z2p(z, Ac, Bwall, Fb, cFV, cFb, rho_water, g)


def calculate_FV2p_oblique(Hm0, Tmm10, beta, cot_alpha, Ac, Bwall, Fb, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0,
                           cFV=0.4, cFb=0.5, rho_water=1025.0, g=9.81):
    z = runup(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    check_validity(np.nan, Ac, Hm0, Fb, beta)
    return (calculate_influence_oblique_waves_vertical_force_gamma_FV_beta(z, Ac, beta)
            * calculate_FV2p_perpendicular_from_z2p(z, Ac, Bwall, Fb, cFV, cFb, rho_water, g))


def calculate_FH01p_perpendicular(FH2p):
    return 1.6 * FH2p


def calculate_FV01p_perpendicular(FV2p, s0p):
    return (2.88 - 32 * s0p) * FV2p
