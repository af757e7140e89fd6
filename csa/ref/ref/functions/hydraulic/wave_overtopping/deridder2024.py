"""De Ridder et al. (2024) eqs. 24 and 26"""
import numpy as np
from ref.functions.core_physics import calculate_Iribarren_number_ksi, calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "De Ridder et al. (2024)"


def check_validity_range(h=np.nan, Hm0=np.nan, Hm0_HF=np.nan, Hm0_LF=np.nan, Tmm10=np.nan, Tmm10_HF=np.nan, Rc=np.nan,
                         cot_alpha=np.nan, m_foreshore_slope=np.nan, Dn50=np.nan):
    if not np.isnan(Hm0 * Tmm10):
        check("Wave steepness sm-1,0", F, calculate_wave_steepness_s(Hm0, Tmm10), 0.001, 0.04)
    if not np.isnan(Hm0_HF * Tmm10_HF):
        check("Short wave steepness sm-1,0_HF", F, calculate_wave_steepness_s(Hm0_HF, Tmm10_HF), 0.004, 0.047)
    if not np.isnan(Hm0 * Tmm10 * cot_alpha):
        check("Iribarren number Ksi_m-1,0", F, calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha), 0.05, 1.11)
    if not np.isnan(m_foreshore_slope):
        check("Foreshore slope m", F, m_foreshore_slope, 0.01, 0.05)
    if not np.isnan(Rc * Hm0):
        check("Rc/Hm0", F, Rc / Hm0, 0.8, 3.72)
    if not np.isnan(Dn50 * Hm0):
        check("Dn50/Hm0", F, Dn50 / Hm0, 0.12, 0.89)
    if not np.isnan(Hm0_LF * Hm0):
        check("Hm0_LF/Hm0", F, Hm0_LF / Hm0, 0.1, 0.81)
    if not np.isnan(h * Hm0):
        check("h/Hm0", F, h / Hm0, 0.57, 4.95)


def _chk(smm10_HF):
    check("Short wave steepness sm-1,0_HF", F, smm10_HF, 0.004, 0.047)


def calculate_crest_freeboard_discharge_q_eq24(Hm0, smm10_HF, gamma_f, q, g=9.81):
    return Hm0 * calculate_dimensionless_crest_freeboard_discharge_q_eq24(Hm0, smm10_HF, gamma_f, q, g)


def calculate_crest_freeboard_discharge_q_eq26(Hm0, smm10_HF, Hm0_LF, gamma_f, q, g=9.81):
    r = -np.log(q / np.sqrt(g * Hm0 ** 3) / 0.5) * gamma_f * Hm0 / (7.91 * smm10_HF ** 0.3) + 0.21 * Hm0_LF
    _chk(smm10_HF)
    check_validity_range(Hm0=Hm0, Rc=r, Hm0_LF=Hm0_LF)
    return r


def calculate_dimensionless_crest_freeboard_discharge_q_eq24(Hm0, smm10_HF, gamma_f, q, g=9.81):
    r = -np.log(q / np.sqrt(g * Hm0 ** 3) / 0.74) * gamma_f / (8.51 * smm10_HF ** 0.32)
    _chk(smm10_HF)
    check_validity_range(Hm0=Hm0, Rc=r * Hm0)
    return r


def calculate_overtopping_discharge_q_eq24(Hm0, smm10_HF, gamma_f, Rc, g=9.81):
    return calculate_dimensionless_overtopping_discharge_eq24(Hm0, smm10_HF, gamma_f, Rc) * np.sqrt(g * Hm0 ** 3)


def calculate_overtopping_discharge_q_eq26(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81):
    return calculate_dimensionless_overtopping_discharge_eq26(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc) * np.sqrt(g * Hm0 ** 3)


def calculate_dimensionless_overtopping_discharge_eq24(Hm0, smm10_HF, gamma_f, Rc):
    _chk(smm10_HF)
    check_validity_range(Hm0=Hm0, Rc=Rc)
    return 0.74 * np.exp(-8.51 * Rc / (Hm0 * gamma_f) * smm10_HF ** 0.32)


def calculate_dimensionless_overtopping_discharge_eq26(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc):
    _chk(smm10_HF)
    check_validity_range(Hm0=Hm0, Rc=Rc, Hm0_LF=Hm0_LF)
    return 0.5 * np.exp(-7.91 * (Rc - 0.21 * Hm0_LF) / (Hm0 * gamma_f) * smm10_HF ** 0.3)
