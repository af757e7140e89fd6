"""EurOtop (2007) rubble mound: the maximum equation of TAW (2002)"""
import numpy as np
import ref.functions.hydraulic.wave_runup.taw2002 as runup
from ref.functions.core_physics import calculate_Iribarren_number_ksi


def check_best_fit(c2, c3, use_best_fit):
    return (0.2, 2.6) if use_best_fit else (c2, c3)


def calculate_overtopping_discharge_q_rubble_mound(Hm0, g=9.81, **kw):
    return calculate_dimensionless_overtopping_discharge_q_rubble_mound(Hm0=Hm0, **kw) * np.sqrt(g * Hm0 ** 3)


def _g(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha):
    if np.isnan(gamma_beta):
        if np.isnan(beta):
            raise ValueError("beta or gamma_beta")
        gamma_beta = runup.calculate_influence_oblique_waves_gamma_beta(beta)
    ksi = calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha)
    return gamma_beta * runup.calculate_adjusted_influence_roughness_gamma_f(gamma_f, 1.0, ksi)


def calculate_dimensionless_overtopping_discharge_q_rubble_mound(Hm0, Tmm10, Rc, beta=np.nan, gamma_beta=np.nan,
                                                                 gamma_f=1.0, cot_alpha=np.nan, c2=0.2, c3=2.3,
                                                                 use_best_fit=False):
    c2, c3 = check_best_fit(c2, c3, use_best_fit)
    return c2 * np.exp(-c3 * Rc / Hm0 / _g(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha))


def calculate_crest_freeboard_Rc_rubble_mound(Hm0, **kw):
    return calculate_dimensionless_crest_freeboard_rubble_mound(Hm0=Hm0, **kw) * Hm0


def calculate_dimensionless_crest_freeboard_rubble_mound(Hm0, Tmm10, q, beta=np.nan, gamma_beta=np.nan, gamma_f=1.0,
                                                         cot_alpha=np.nan, c2=0.2, c3=2.3, use_best_fit=False):
    c2, c3 = check_best_fit(c2, c3, use_best_fit)
    return -np.log(q / np.sqrt(9.81 * Hm0 ** 3) / c2) / c3 * _g(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha)
