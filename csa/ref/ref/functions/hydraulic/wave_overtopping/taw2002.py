"""TAW (2002) overtopping, eqs. 22-28"""
import warnings
import numpy as np
import ref.functions.hydraulic.wave_runup.taw2002 as runup
from ref.functions.core_physics import calculate_Iribarren_number_ksi, calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "TAW (2002)"


def check_validity_range(Hm0=np.nan, Tmm10=np.nan, beta=np.nan, cot_alpha=np.nan, cot_alpha_down=np.nan,
                         cot_alpha_up=np.nan, gamma_f=np.nan, gamma_b=np.nan, gamma_beta=np.nan, gamma_v=np.nan):
    if not np.isnan(Hm0 * Tmm10):
        check("Wave steepness sm-1,0", F, calculate_wave_steepness_s(Hm0, Tmm10), 0.0, 0.07)
    if not np.isnan(Hm0 * Tmm10 * cot_alpha):
        ksi = calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha)
        check("Iribarren number ksi_m-1,0", F, ksi, 0.0, 7.0)
        if not np.isnan(gamma_b):
            check("gamma_b * ksi_m-1,0", F, gamma_b * ksi, 0.5, 10.0)
    if not np.isnan(cot_alpha_down):
        check("Cotangent alpha lower slope", F, cot_alpha_down, 1.0, 7.0)
    if not np.isnan(cot_alpha_up):
        check("Cotangent alpha upper slope", F, cot_alpha_up, 1.0, 7.0)
    if not np.isnan(beta):
        check("Incident wave angle beta", F, beta, 0.0, 90.0)
    if not np.isnan(gamma_b):
        check("Influence factor berm gamma_b", F, gamma_b, 0.4, 1.0)
    if not np.isnan(gamma_f):
        check("Influence factor roughness gamma_f", F, gamma_f, 0.4, 1.0)
    if not np.isnan(gamma_beta):
        check("Influence factor oblique waves gamma_beta", F, gamma_beta, 0.4, 1.0)
    if not np.isnan(gamma_v):
        check("Influence factor vertical wall gamma_v", F, gamma_v, 0.4, 1.0)


def calculate_overtopping_discharge_q(Hm0, g=9.81, **kw):
    q, m = calculate_dimensionless_overtopping_discharge_q(Hm0=Hm0, **kw)
    return q * np.sqrt(g * Hm0 ** 3), m


def _factors(Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db, gamma_beta, gamma_b, gamma_f):
    if np.isnan(gamma_beta):
        if np.isnan(beta):
            raise ValueError("beta or gamma_beta")
        gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta)
    if runup.check_composite_slope(cot_alpha, cot_alpha_down, cot_alpha_up):
        z = runup.iteration_procedure_z2p(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up,
                                          B_berm=B_berm, db=db, gamma_f=gamma_f, gamma_beta=gamma_beta)
        cot_alpha = runup.determine_average_slope(Hm0, z, cot_alpha_down, cot_alpha_up, B_berm, db)
    ksi = calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha)
    if np.isnan(gamma_b):
        L = runup.calculate_berm_length(Hm0=Hm0, B_berm=B_berm, cot_alpha=cot_alpha, cot_alpha_down=cot_alpha_down,
                                        cot_alpha_up=cot_alpha_up)
        gamma_b = runup.iteration_procedure_gamma_b(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_average=cot_alpha, B_berm=B_berm,
                                                    L_berm=L, db=db, gamma_f=gamma_f, gamma_beta=gamma_beta)
    gf = runup.calculate_adjusted_influence_roughness_gamma_f(gamma_f, gamma_b, ksi)
    return gamma_beta, cot_alpha, ksi, gamma_b, gf


def _coefs(sigma, use_best_fit):
    # mean 4.75 / 2.6 with standard deviations 0.5 / 0.35 ; deterministic design 4.3 / 2.3
    if use_best_fit:
        return 4.75 + 0.5 * sigma, 2.6 + 0.35 * sigma
    if sigma != 0:
        warnings.warn("sigma")
    return 4.3, 2.3


def calculate_dimensionless_overtopping_discharge_q(Hm0, Tmm10, Rc, cot_alpha=np.nan, cot_alpha_down=np.nan,
                                                    cot_alpha_up=np.nan, beta=np.nan, B_berm=0.0, db=0.0,
                                                    gamma_beta=np.nan, gamma_b=np.nan, gamma_f=1.0, gamma_v=1.0,
                                                    sigma=0, use_best_fit=False):
    a, b = _coefs(sigma, use_best_fit)
    gamma_beta, ca, ksi, gamma_b, gf = _factors(Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db,
                                                gamma_beta, gamma_b, gamma_f)
    q1 = 0.067 * np.sqrt(ca) * gamma_b * ksi * np.exp(-a * Rc / Hm0 / (ksi * gamma_b * gf * gamma_beta * gamma_v))
    q2 = 0.2 * np.exp(-b * Rc / Hm0 / (gf * gamma_beta))
    check_validity_range(Hm0, Tmm10, beta, ca, cot_alpha_down, cot_alpha_up, gamma_f, gamma_b, gamma_beta, gamma_v)
    return np.minimum(q1, q2), q2 <= q1


def q_diml_max_equation(Hm0, Rc, gamma_beta, gamma_f, c3, cor3=0.0, c2=0.2):
    return c2 * np.exp(-(c3 + cor3) * Rc / (Hm0 * gamma_f * gamma_beta))


def calculate_influence_oblique_waves_gamma_beta(beta, c_gamma_beta=0.0033, max_angle=80.0):
    return 1 - c_gamma_beta * min(abs(beta), max_angle)


def calculate_influence_crest_wall_gamma_v(alpha_wall_deg):
    return 1.0 if alpha_wall_deg <= 45 else 1.35 - 0.0078 * alpha_wall_deg


def calculate_crest_freeboard_Rc(Hm0, **kw):
    r, m = calculate_dimensionless_crest_freeboard(Hm0=Hm0, **kw)
    return r * Hm0, m


def calculate_dimensionless_crest_freeboard(Hm0, Tmm10, q, cot_alpha=np.nan, cot_alpha_down=np.nan, cot_alpha_up=np.nan,
                                            beta=np.nan, B_berm=0.0, db=0.0, gamma_beta=np.nan, gamma_b=np.nan,
                                            gamma_f=1.0, gamma_v=1.0, sigma=0, g=9.81, use_best_fit=False):
    a, b = _coefs(sigma, use_best_fit)
    gamma_beta, ca, ksi, gamma_b, gf = _factors(Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db,
                                                gamma_beta, gamma_b, gamma_f)
    qd = q / np.sqrt(g * Hm0 ** 3)
    r1 = -np.log(qd / (0.067 * np.sqrt(ca) * gamma_b * ksi)) * ksi * gamma_b * gf * gamma_beta * gamma_v / a
    r2 = -np.log(qd / 0.2) * gf * gamma_beta / b
    check_validity_range(Hm0, Tmm10, beta, ca, cot_alpha_down, cot_alpha_up, gamma_f, gamma_b, gamma_beta, gamma_v)
    return np.minimum(r1, r2), r2 <= r1


def Rc_diml_max_equation(Hm0, q, gamma_beta, gamma_f, c3, cor3=0.0, c2=0.2, g=9.81):
    return -np.log(q / (c2 * np.sqrt(g * Hm0 ** 3))) * gamma_f * gamma_beta / (c3 + cor3)
