"""Van Gent & Pozueta (2004)"""
import numpy as np
from ref.functions.core_physics import (check_usage_Dn50_or_M50, calculate_wave_steepness_s as steep,
                                        calculate_buoyant_density_Delta as buoy)
from ref.functions.core_utility import check_variable_validity_range as check
from ref.functions.hydraulic.wave_runup.vangent2001 import calculate_wave_runup_height_z1p as runup, _invert_for_Hs
from ref.functions.hydraulic.wave_overtopping.vangent2002_velocity import (
    calculate_maximum_wave_overtopping_velocity_uXp as velocity, _invert_for_zXp)

F = "Van Gent & Pozueta (2004)"


def check_validity_range(Rc=np.nan, Rc_rear=np.nan, cot_phi=np.nan, gamma_f=np.nan, Dn50=np.nan, rho_rock=np.nan,
                         rho_water=np.nan, Bc=np.nan, Hs=np.nan, Tmm10=np.nan, z1p=np.nan, S=np.nan, N_waves=np.nan):
    if not np.isnan(Hs * Tmm10):
        check("sm-1,0", F, steep(Hs, Tmm10), 0.019, 0.036)
    if not np.isnan(N_waves):
        check("N_waves", F, N_waves, 0, 4000)
    if not np.isnan(Rc * Hs):
        check("Rc/Hs", F, Rc / Hs, 0.3, 2.0)
    if not np.isnan(Rc_rear * Hs):
        check("Rc_rear/Hs", F, Rc_rear / Hs, 0.3, 6.0)
    if not np.isnan(Bc * Hs):
        check("B_c/Hs", F, Bc / Hs, 1.3, 1.6)
    if not np.isnan(Rc * Hs * z1p * gamma_f):
        check("(z1% - Rc)/(gamma_f*Hs)", F, (z1p - Rc) / (gamma_f * Hs), 0.0, 1.4)
    if not np.isnan(Hs * Dn50 * rho_rock * rho_water):
        check("Hs/(Delta*Dn50_rear)", F, Hs / (buoy(rho_rock, rho_water) * Dn50), 5.5, 8.5)
    if not np.isnan(cot_phi):
        check("cot phi", F, cot_phi, 2.0, 4.0)
    if not np.isnan(S):
        check("S", F, S, 2.0, 50.0)


def calculate_damage_number_S(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, Hs, Tmm10, Rc, Rc_rear, Bc, N_waves,
                              Dn50=np.nan, M50=np.nan, rho_rock=np.nan, rho_water=1025.0, cs=0.008**6):
    if np.isnan(rho_rock):
        raise ValueError("rho_rock")
    z = runup(Hs, Tmm10, gamma_f, cot_alpha)
    u = velocity(Hs, z, Rc, Bc, gamma_f, gamma_f_Crest)
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
    r = (cs * (u * Tmm10 / (np.sqrt(buoy(rho_rock, rho_water)) * D)) ** 6 * cot_phi ** -2.5
         * (1 + 10 * np.exp(-Rc_rear / Hs)) * np.sqrt(N_waves))
    check_validity_range(Rc, Rc_rear, cot_phi, gamma_f, D, rho_rock, rho_water, Bc, Hs, Tmm10, z, r, N_waves)
    return r


def calculate_nominal_rock_diameter_Dn50(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Hs, Tmm10, Rc, Rc_rear, Bc,
                                         rho_rock, N_waves, rho_water=1025.0, cs=0.008**6):
    z = runup(Hs, Tmm10, gamma_f, cot_alpha)
    u = velocity(Hs, z, Rc, Bc, gamma_f, gamma_f_Crest)
    r = ((S / (cs * cot_phi ** -2.5 * (1 + 10 * np.exp(-Rc_rear / Hs)) * np.sqrt(N_waves))) ** (-1 / 6)
         * u * Tmm10 / np.sqrt(buoy(rho_rock, rho_water)))
    check_validity_range(Rc, Rc_rear, cot_phi, gamma_f, r, rho_rock, rho_water, Bc, Hs, Tmm10, z, S, N_waves)
    return r


def _invert_for_u1p(cot_phi, S, Hs, Tmm10, Rc_rear, N_waves, Dn50=np.nan, Delta=np.nan, cs=0.008**6):
    return ((S / (cs * cot_phi ** -2.5 * (1 + 10 * np.exp(-Rc_rear / Hs)) * np.sqrt(N_waves))) ** (1 / 6)
            * np.sqrt(Delta) * Dn50 / Tmm10)


def calculate_maximum_significant_wave_height_Hs(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Tmm10, Rc, Rc_rear, Bc,
                                                 N_waves, Dn50=np.nan, M50=np.nan, rho_rock=np.nan, rho_water=1025.0,
                                                 cs=0.008**6, tolerance=0.0001, max_iterations=10000):
    if np.isnan(rho_rock):
        raise ValueError("rho_rock")
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
    new = (Rc + 0.5) / (2.552 * gamma_f)
    old = np.inf
    while np.max(np.abs(new - old)) > tolerance:
        old = new
        u = _invert_for_u1p(cot_phi, S, old, Tmm10, Rc_rear, N_waves, D, buoy(rho_rock, rho_water), cs)
        z = _invert_for_zXp(old, u, Rc, Bc, gamma_f, gamma_f_Crest)
        new = _invert_for_Hs(old, z, Tmm10, gamma_f, cot_alpha)
    check_validity_range(Rc, Rc_rear, cot_phi, gamma_f, D, rho_rock, rho_water, Bc, new, Tmm10, z, S, N_waves)
    return new
