"""Van Gent (2021), table of coefficients for c = 1.0 and c = 1.3"""
import numpy as np
from ref.functions.core_physics import calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "Van Gent (2021)"


def check_validity_range(Hm0=np.nan, Tmm10=np.nan, beta=np.nan, Rc=np.nan, q_diml=np.nan):
    if not np.isnan(Hm0 * Tmm10):
        check("Wave steepness sm-1,0", F, calculate_wave_steepness_s(Hm0, Tmm10), 0.015, 0.041)
    if not np.isnan(Hm0 * Rc):
        check("Dimensionless freeboard Rc/Hm0", F, Rc / Hm0, 1.2, 2.9)
    if not np.isnan(q_diml):
        check("Dimensionless overtopping discharge q", F, q_diml, 0.0, 0.0012)
    if not np.isnan(beta):
        check("Incident wave angle beta", F, beta, 0.0, 75.0)


def _determine_coefficients(c, short_crested_waves, crossing_seas, parapet):
    if c != 1.0 and c != 1.3:
        raise ValueError("c")
    short = short_crested_waves or crossing_seas
    if parapet and not short:
        raise ValueError("long-crested with parapet")
    if c == 1.0:
        if short:
            return 0.2, 3.9, 0.75, 0.89 if parapet else 1.0
        return 0.2, 4.0, 0.8, 1.0
    if short:
        return 0.047, 2.57, 0.7, 0.85 if parapet else 1.0
    return 0.047, 2.7, 0.8, 1.0


def calculate_influence_oblique_waves_gamma_beta(beta, gamma_p, c_beta):
    return (1 - c_beta / gamma_p) * np.cos(np.radians(beta)) ** 2 + c_beta / gamma_p


def _pre(beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet):
    a, b, cb, gp = _determine_coefficients(c, short_crested_waves, crossing_seas, parapet)
    if crossing_seas:
        if np.isnan(Hm0_swell):
            raise ValueError("Hm0_swell")
        sw = c_swell * Hm0_swell
    else:
        sw = 0
    if np.isnan(gamma_beta):
        if np.isnan(beta):
            raise ValueError("beta or gamma_beta")
        gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta, gp, cb)
    return a, b, gamma_beta * gp, sw


def calculate_overtopping_discharge_q(Hm0, g=9.81, **kw):
    return calculate_dimensionless_overtopping_discharge_q(Hm0=Hm0, **kw) * np.sqrt(g * Hm0 ** 3)


def calculate_dimensionless_overtopping_discharge_q(Hm0, Rc, beta=np.nan, gamma_beta=np.nan, Hm0_swell=np.nan, c=1.0,
                                                    c_swell=0.4, short_crested_waves=True, crossing_seas=False,
                                                    parapet=False):
    a, b, gg, sw = _pre(beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet)
    q = a * np.exp(-b / gg * ((Rc - sw) / Hm0) ** c)
    check_validity_range(Hm0=Hm0, beta=beta, Rc=Rc, q_diml=q)
    return q


def calculate_crest_freeboard_Rc(Hm0, **kw):
    return calculate_dimensionless_crest_freeboard(Hm0=Hm0, **kw) * Hm0


def calculate_dimensionless_crest_freeboard(Hm0, q, beta=np.nan, gamma_beta=np.nan, Hm0_swell=np.nan, c=1.0, c_swell=0.4,
                                            short_crested_waves=True, crossing_seas=False, parapet=False, g=9.81):
    a, b, gg, sw = _pre(beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet)
    r = (-np.log(q / np.sqrt(g * Hm0 ** 3) / a) * gg / b) ** (1 / c) + sw / Hm0
    check_validity_range(Hm0=Hm0, beta=beta, Rc=r * Hm0)
    return r
