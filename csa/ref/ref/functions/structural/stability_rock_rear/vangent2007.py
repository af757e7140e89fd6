"""Van Gent (2007) rear side with crest element"""
import numpy as np
from ref.functions.core_physics import check_usage_Dn50_or_M50, calculate_wave_steepness_s as steep
from ref.functions.core_utility import check_variable_validity_range as check
from ref.functions.hydraulic.wave_runup.vangent2001 import calculate_wave_runup_height_z1p as runup, _invert_for_Hs

F = "Van Gent (2007)"


def check_validity_range(Rc=np.nan, Rc2_front=np.nan, Rc2_rear=np.nan, Gc=np.nan, Dn50=np.nan, B_element=np.nan,
                         h=np.nan, Hs=np.nan, Tmm10=np.nan, z1p=np.nan, S=np.nan, N_waves=np.nan):
    if not np.isnan(Hs * Tmm10):
        check("sm-1,0", F, steep(Hs, Tmm10), 0.023, 0.054)
    if not np.isnan(h * Hs):
        check("h/Hs", F, h / Hs, 3.3, 11.0)
    if not np.isnan(N_waves):
        check("N_waves", F, N_waves, 1000, 10000)
    if not np.isnan(Rc * Hs):
        check("Rc/Hs", F, Rc / Hs, 0.5, 1.9)
    if not np.isnan(Rc * Dn50):
        check("Rc/Dn50", F, Rc / Dn50, 7.0, 22.0)
    if not np.isnan(Rc * Hs * z1p):
        check("(z1% - Rc)/Hs", F, (z1p - Rc) / Hs, 0.2, 1.3)
    if not np.isnan(Rc2_front * Hs):
        check("Rc2,front/Hs", F, Rc2_front / Hs, 0.0, 0.5)
    if not np.isnan(B_element * Hs):
        check("B_element/Hs", F, B_element / Hs, 0.5, 1.5)
    if not np.isnan(Gc * Hs):
        check("Gc/Hs", F, Gc / Hs, 0.5, 1.1)
    if not np.isnan(Dn50 * Hs):
        check("Stability number Ns", F, Hs / ((2650 / 1025 - 1) * Dn50), 4.0, 12.0)
    if not np.isnan(Rc2_rear * Hs):
        check("Rc2,rear/Hs", F, Rc2_rear / Hs, 0.0, 1.3)
    if not np.isnan(S):
        check("S", F, S, 2.0, 100.0)


def _chk(Rc, Rc2_front, Rc2_rear, Dn50, Hs, Tmm10, z1p, S, N_waves):
    check_validity_range(Rc=Rc, Rc2_front=Rc2_front, Rc2_rear=Rc2_rear, Dn50=Dn50, Hs=Hs, Tmm10=Tmm10, z1p=z1p, S=S,
                         N_waves=N_waves)


def calculate_damage_number_S(cot_alpha, cot_phi, gamma, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, Dn50=np.nan,
                              M50=np.nan, rho_rock=np.nan):
    z = runup(Hs, Tmm10, gamma, cot_alpha)
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
    r = (0.00025 * cot_phi ** 1.25 * ((z - Rc) / D) ** 2 * np.sqrt(Rc / D) * (1 + 5 * Rc2_rear / (Rc - Rc2_rear))
         / (1 + Rc2_front / Hs) * np.sqrt(N_waves))
    _chk(Rc, Rc2_front, Rc2_rear, D, Hs, Tmm10, z, r, N_waves)
    return r


def calculate_nominal_rock_diameter_Dn50(cot_alpha, cot_phi, gamma, S, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves):
    z = runup(Hs, Tmm10, gamma, cot_alpha)
    r = (0.036 * np.sqrt(cot_phi) * (z - Rc) ** 0.8 * Rc ** 0.2 * (1 + 5 * Rc2_rear / (Rc - Rc2_rear)) ** 0.4
         * (1 + Rc2_front / Hs) ** -0.4 * (S / np.sqrt(N_waves)) ** -0.4)
    _chk(Rc, Rc2_front, Rc2_rear, r, Hs, Tmm10, z, S, N_waves)
    return r


def _invert_for_z1p(cot_phi, S, Dn50, Hs, Rc, Rc2_front, Rc2_rear, N_waves):
    return Rc + Dn50 * np.sqrt(S / (0.00025 * cot_phi ** 1.25 * np.sqrt(Rc / Dn50) * (1 + 5 * Rc2_rear / (Rc - Rc2_rear))
                                    / (1 + Rc2_front / Hs) * np.sqrt(N_waves)))


def calculate_maximum_significant_wave_height_Hs(cot_alpha, cot_phi, gamma, S, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves,
                                                 Dn50=np.nan, M50=np.nan, rho_rock=np.nan, tolerance=0.0001,
                                                 max_iterations=10000):
    D = check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
    new = Rc2_front
    old = np.inf
    while np.max(np.abs(new - old)) > tolerance:
        old = new
        z = _invert_for_z1p(cot_phi, S, D, old, Rc, Rc2_front, Rc2_rear, N_waves)
        new = _invert_for_Hs(old, z, Tmm10, gamma, cot_alpha)
    _chk(Rc, Rc2_front, Rc2_rear, D, new, Tmm10, z, S, N_waves)
    return new
