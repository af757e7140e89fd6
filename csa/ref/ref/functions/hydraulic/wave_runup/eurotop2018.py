"""EurOtop (2018) eqs. 5.4/5.5 (mean value: 5.1/5.2) on top of the TAW (2002) procedure"""
import numpy as np
import ref.functions.hydraulic.wave_runup.taw2002 as taw


def check_best_fit(c1, c2, c3, c4, use_best_fit):
    return (1.65, 4.0, 1.5, 1.0) if use_best_fit else (c1, c2, c3, c4)


def calculate_wave_runup_height_z2p(Hm0, **kw):
    z, m = calculate_dimensionless_wave_runup_height_z2p(Hm0=Hm0, **kw)
    return z * Hm0, m


def calculate_dimensionless_wave_runup_height_z2p(Hm0, Tmm10, beta=np.nan, gamma_beta=np.nan, gamma_b=np.nan, gamma_f=1.0,
                                                  B_berm=0.0, db=0.0, cot_alpha=np.nan, cot_alpha_down=np.nan,
                                                  cot_alpha_up=np.nan, c1=1.75, c2=4.3, c3=1.5, c4=1.07,
                                                  use_best_fit=False):
    c1, c2, c3, c4 = check_best_fit(c1, c2, c3, c4, use_best_fit)
    if np.isnan(gamma_beta):
        if np.isnan(beta):
            raise ValueError("beta or gamma_beta")
        gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta, gamma_f)
    return taw.calculate_dimensionless_wave_runup_height_z2p(
        Hm0=Hm0, Tmm10=Tmm10, gamma_beta=gamma_beta, gamma_b=gamma_b, gamma_f=gamma_f, B_berm=B_berm, db=db,
        cot_alpha=cot_alpha, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up, c1=c1, c2=c2, c3=c3, c4=c4)


def calculate_influence_oblique_waves_gamma_beta(beta, gamma_f, gamma_f_crit=0.6, c_gamma_beta_smooth=0.0022,
                                                 c_gamma_beta_rough=0.0063, max_angle=80.0):
    c = c_gamma_beta_smooth if gamma_f > gamma_f_crit else c_gamma_beta_rough
    return 1 - c * min(abs(beta), max_angle)


def iteration_procedure_z2p(c1=1.75, c2=4.3, c3=1.5, c4=1.07, use_best_fit=False, **kw):
    c1, c2, c3, c4 = check_best_fit(c1, c2, c3, c4, use_best_fit)
    return taw.iteration_procedure_z2p(c1=c1, c2=c2, c3=c3, c4=c4, **kw)


def iteration_procedure_gamma_b(c1=1.75, c2=4.3, c3=1.5, c4=1.07, use_best_fit=False, **kw):
    c1, c2, c3, c4 = check_best_fit(c1, c2, c3, c4, use_best_fit)
    return taw.iteration_procedure_gamma_b(c1=c1, c2=c2, c3=c3, c4=c4, **kw)
