"""EurOtop (2018) eqs. 5.10-5.13 and 6.5/6.6"""
import numpy as np
import ref.functions.hydraulic.wave_runup.taw2002 as runup
import ref.functions.hydraulic.wave_runup.eurotop2018 as runup18
from ref.functions.core_physics import calculate_Iribarren_number_ksi
from ref.functions.core_utility import check_variable_validity_range as check


def check_validity_range_rubble_mound(cot_alpha=np.nan):
    if not np.isnan(cot_alpha):
        check("Cotangent alpha", "EurOtop (2018) - rubble mound", cot_alpha, 4.0 / 3.0, 2.0)


def check_best_fit(c1, c2, c3, c4, use_best_fit):
    return (2.7, 0.09, 1.5, 0.023) if use_best_fit else (c1, c2, c3, c4)


def calculate_influence_oblique_waves_gamma_beta(beta, gamma_f, gamma_f_crit=0.6, c_gamma_beta_smooth=0.0033,
                                                 c_gamma_beta_rough=0.0063, max_angle=80.0):
    c = c_gamma_beta_smooth if gamma_f > gamma_f_crit else c_gamma_beta_rough
    return 1 - c * min(abs(beta), max_angle)


def _slope(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, use_best_fit):
    if np.isnan(gamma_beta):
        if np.isnan(beta):
            raise ValueError("beta or gamma_beta")
        gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta, gamma_f)
    if runup.check_composite_slope(cot_alpha, cot_alpha_down, cot_alpha_up):
        z = runup18.iteration_procedure_z2p(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_down=cot_alpha_down,
                                            cot_alpha_up=cot_alpha_up, B_berm=B_berm, db=db, gamma_f=gamma_f,
                                            gamma_beta=gamma_beta, use_best_fit=use_best_fit)
        cot_alpha = runup.determine_average_slope(Hm0, z, cot_alpha_down, cot_alpha_up, B_berm, db)
    return gamma_beta, cot_alpha, calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha)


def _berm(Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, ca, cot_alpha_down, cot_alpha_up, ksi):
    if np.isnan(gamma_b):
        L = runup.calculate_berm_length(Hm0=Hm0, B_berm=B_berm, cot_alpha=ca, cot_alpha_down=cot_alpha_down,
                                        cot_alpha_up=cot_alpha_up)
        gamma_b = runup18.iteration_procedure_gamma_b(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_average=ca, B_berm=B_berm,
                                                      L_berm=L, db=db, gamma_f=gamma_f, gamma_beta=gamma_beta)
    return gamma_b, runup.calculate_adjusted_influence_roughness_gamma_f(gamma_f, gamma_b, ksi)


def calculate_overtopping_discharge_q(Hm0, g=9.81, **kw):
    q, m = calculate_dimensionless_overtopping_discharge_q(Hm0=Hm0, **kw)
    return q * np.sqrt(g * Hm0 ** 3), m


def calculate_dimensionless_overtopping_discharge_q(Hm0, Tmm10, Rc, beta=np.nan, gamma_beta=np.nan, gamma_b=np.nan,
                                                    gamma_f=1.0, gamma_v=1.0, gamma_star=1.0, B_berm=0.0, db=0.0,
                                                    cot_alpha=np.nan, cot_alpha_down=np.nan, cot_alpha_up=np.nan,
                                                    c1=2.5, c2=0.1035, c3=1.35, c4=0.026, use_best_fit=False):
    c1, c2, c3, c4 = check_best_fit(c1, c2, c3, c4, use_best_fit)
    gamma_beta, ca, ksi = _slope(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                                 cot_alpha_up, use_best_fit)
    gamma_b, gf = _berm(Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, ca, cot_alpha_down, cot_alpha_up, ksi)
    q1 = c4 * np.sqrt(ca) * gamma_b * ksi * np.exp(-(c1 * Rc / Hm0 / (ksi * gamma_b * gf * gamma_beta * gamma_v)) ** 1.3)
    q2 = c2 * np.exp(-(c3 * Rc / Hm0 / (gf * gamma_beta * gamma_star)) ** 1.3)
    return np.minimum(q1, q2), q2 <= q1


def q_diml_max_equation(Hm0, Rc, gamma_beta=np.nan, gamma_f=1.0, gamma_star=1.0, c2=0.1035, c3=1.35):
    return c2 * np.exp(-(c3 * Rc / Hm0 / (gamma_f * gamma_beta * gamma_star)) ** 1.3)


def calculate_crest_freeboard_Rc(Hm0, **kw):
    r, m = calculate_dimensionless_crest_freeboard(Hm0=Hm0, **kw)
    return r * Hm0, m


def calculate_dimensionless_crest_freeboard(Hm0, Tmm10, q, beta=np.nan, gamma_beta=np.nan, gamma_b=np.nan, gamma_f=1.0,
                                            gamma_v=1.0, gamma_star=1.0, B_berm=0.0, db=0.0, cot_alpha=np.nan,
                                            cot_alpha_down=np.nan, cot_alpha_up=np.nan, c1=2.5, c2=0.1035, c3=1.35,
                                            c4=0.026, use_best_fit=False, g=9.81):
    c1, c2, c3, c4 = check_best_fit(c1, c2, c3, c4, use_best_fit)
    gamma_beta, ca, ksi = _slope(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                                 cot_alpha_up, use_best_fit)
    gamma_b, gf = _berm(Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, ca, cot_alpha_down, cot_alpha_up, ksi)
    qd = q / np.sqrt(g * Hm0 ** 3)
    r1 = (-np.log(qd / (c4 * np.sqrt(ca) * gamma_b * ksi))) ** (1 / 1.3) * ksi * gamma_b * gf * gamma_beta * gamma_v / c1
    r2 = (-np.log(qd / c2)) ** (1 / 1.3) * gf * gamma_beta * gamma_star / c3
    return np.minimum(r1, r2), r2 <= r1


def Rc_diml_max_equation(Hm0, q, gamma_beta=np.nan, gamma_f=1.0, gamma_star=1.0, c2=0.1035, c3=1.35, g=9.81):
    return (-np.log(q / np.sqrt(g * Hm0 ** 3) / c2)) ** (1 / 1.3) * gamma_f * gamma_beta * gamma_star / c3


def calculate_overtopping_discharge_q_rubble_mound(Hm0, g=9.81, **kw):
    return calculate_dimensionless_overtopping_discharge_q_rubble_mound(Hm0=Hm0, **kw) * np.sqrt(g * Hm0 ** 3)


def calculate_dimensionless_overtopping_discharge_q_rubble_mound(Hm0, Tmm10, Rc, beta=np.nan, gamma_beta=np.nan,
                                                                 gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=np.nan,
                                                                 cot_alpha_down=np.nan, cot_alpha_up=np.nan, c2=0.1035,
                                                                 c3=1.35, use_best_fit=False):
    _, c2, c3, _ = check_best_fit(np.nan, c2, c3, np.nan, use_best_fit)
    gamma_beta, ca, ksi = _slope(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                                 cot_alpha_up, use_best_fit)
    gf = runup.calculate_adjusted_influence_roughness_gamma_f(gamma_f, 1.0, ksi)
    check_validity_range_rubble_mound(ca)
    return c2 * np.exp(-(c3 * Rc / Hm0 / (gf * gamma_beta)) ** 1.3)


def calculate_crest_freeboard_Rc_rubble_mound(Hm0, **kw):
    return calculate_dimensionless_crest_freeboard_rubble_mound(Hm0=Hm0, **kw) * Hm0


def calculate_dimensionless_crest_freeboard_rubble_mound(Hm0, Tmm10, q, beta=np.nan, gamma_beta=np.nan, gamma_f=1.0,
                                                         B_berm=0.0, db=0.0, cot_alpha=np.nan, cot_alpha_down=np.nan,
                                                         cot_alpha_up=np.nan, c2=0.1035, c3=1.35, use_best_fit=False,
                                                         g=9.81):
    _, c2, c3, _ = check_best_fit(np.nan, c2, c3, np.nan, use_best_fit)
    gamma_beta, ca, ksi = _slope(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                                 cot_alpha_up, use_best_fit)
    gf = runup.calculate_adjusted_influence_roughness_gamma_f(gamma_f, 1.0, ksi)
    check_validity_range_rubble_mound(ca)
    return (-np.log(q / np.sqrt(g * Hm0 ** 3) / c2)) ** (1 / 1.3) * gf * gamma_beta / c3
