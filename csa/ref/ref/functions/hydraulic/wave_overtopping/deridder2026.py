"""De Ridder et al. (2026) eqs. 28 and 32"""
import numpy as np
from ref.functions.core_physics import calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "De Ridder et al. (2026)"


def check_validity_range(h=np.nan, Hm0=np.nan, Hm0_HF=np.nan, Hm0_LF=np.nan, Tmm10=np.nan, Tmm10_HF=np.nan, Rc=np.nan,
                         Dn50=np.nan, theta=np.nan):
    if not np.isnan(Hm0 * Tmm10):
        check("Wave steepness sm-1,0", F, calculate_wave_steepness_s(Hm0, Tmm10), 0.003, 0.041)
    if not np.isnan(Hm0_HF * Tmm10_HF):
        check("Short wave steepness sm-1,0_HF", F, calculate_wave_steepness_s(Hm0_HF, Tmm10_HF), 0.012, 0.049)
    if not np.isnan(Rc * Hm0):
        check("Rc/Hm0", F, Rc / Hm0, 0.98, 1.94)
    if not np.isnan(Dn50 * Hm0):
        check("Dn50/Hm0", F, Dn50 / Hm0, 0.18, 0.35)
    if not np.isnan(Hm0_LF * Hm0):
        check("Hm0_LF/Hm0", F, Hm0_LF / Hm0, 0.15, 0.55)
    if not np.isnan(h * Hm0):
        check("h/Hm0", F, h / Hm0, 1.41, 2.15)
    if not np.isnan(theta):
        check("theta", F, theta, 0.0, 56)


def _chk(smm10_HF):
    check("Short wave steepness sm-1,0_HF", F, smm10_HF, 0.012, 0.049)


def calculate_gamma_beta(theta):
    return 0.65 * np.cos(np.radians(theta)) ** 2 + 0.35


def calculate_crest_freeboard_discharge_q_eq28(Hm0, smm10_HF, gamma_f, q, g=9.81, theta=0.0):
    r = calculate_dimensionless_crest_freeboard_discharge_q_eq28(Hm0, smm10_HF, gamma_f, q, g, calculate_gamma_beta(theta))
    check_validity_range(theta=theta)
    return r * Hm0


def calculate_crest_freeboard_discharge_q_eq32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, q, g=9.81, theta=0.0):
    r = (-np.log(q / np.sqrt(g * Hm0_HF ** 3) / 0.05) * gamma_f * calculate_gamma_beta(theta) * Hm0_HF
         / (10.4 * smm10_HF ** 0.5) + 0.97 * Hm0_LF)
    _chk(smm10_HF)
    check_validity_range(Hm0=Hm0_HF, Rc=r, Hm0_LF=Hm0_LF, theta=theta)
    return r


def calculate_dimensionless_crest_freeboard_discharge_q_eq28(Hm0, smm10_HF, gamma_f, q, g=9.81, gamma_beta=1.0):
    r = -np.log(q / np.sqrt(g * Hm0 ** 3) / 0.16) / (6.93 * smm10_HF ** 0.36) * gamma_f * gamma_beta
    _chk(smm10_HF)
    check_validity_range(Hm0=Hm0, Rc=r * Hm0)
    return r


def calculate_overtopping_discharge_q_eq28(Hm0, smm10_HF, gamma_f, Rc, g=9.81, theta=0.0):
    return calculate_dimensionless_overtopping_discharge_eq28(Hm0, smm10_HF, gamma_f, Rc, theta) * np.sqrt(g * Hm0 ** 3)


def calculate_overtopping_discharge_q_eq32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81, theta=0.0):
    return (calculate_dimensionless_overtopping_discharge_eq32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta)
            * np.sqrt(g * Hm0_HF ** 3))


def calculate_dimensionless_overtopping_discharge_eq28(Hm0, smm10_HF, gamma_f, Rc, theta=0.0):
    _chk(smm10_HF)
    check_validity_range(Hm0=Hm0, Rc=Rc, theta=theta)
    return 0.16 * np.exp(-6.93 * Rc / (Hm0 * gamma_f * calculate_gamma_beta(theta)) * smm10_HF ** 0.36)


def calculate_dimensionless_overtopping_discharge_eq32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta=0.0):
    _chk(smm10_HF)
    check_validity_range(Hm0=Hm0_HF, Rc=Rc, Hm0_LF=Hm0_LF, theta=theta)
    return 0.05 * np.exp(-10.4 * (Rc - 0.97 * Hm0_LF) / (Hm0_HF * gamma_f * calculate_gamma_beta(theta)) * smm10_HF ** 0.5)
