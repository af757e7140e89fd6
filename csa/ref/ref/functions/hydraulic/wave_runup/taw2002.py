"""TAW (2002) run-up, eqs. 3a/3b, 5a/b, 8, 10, 12"""
import numpy as np
from ref.functions.core_physics import calculate_Iribarren_number_ksi, calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "TAW (2002)"


def check_validity_range(Hm0=np.nan, Tmm10=np.nan, gamma_f=np.nan, gamma_b=np.nan, gamma_beta=np.nan, cot_alpha=np.nan):
    if not np.isnan(gamma_b):
        check("Influence factor for a berm gamma_b", F, gamma_b, 0.6, 1.0)
    if not np.isnan(gamma_beta):
        check("Influence factor for oblique wave incidence gamma_beta", F, gamma_beta, 0.7, 1.0)
    if not np.isnan(gamma_f):
        check("Influence factor for surface roughness gamma_f", F, gamma_f, 0.5, 1.0)
    if not np.isnan(Hm0 * Tmm10):
        check("Wave steepness smm10", F, calculate_wave_steepness_s(Hm0, Tmm10), 0.001, 0.07)
    if not np.isnan(Hm0 * Tmm10 * cot_alpha):
        check("Iribarren number ksi_mm10", F, calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha), 0.4, 20.0)


def calculate_wave_runup_height_z2p(Hm0, **kw):
    z, m = calculate_dimensionless_wave_runup_height_z2p(Hm0=Hm0, **kw)
    return z * Hm0, m


def calculate_dimensionless_wave_runup_height_z2p(Hm0, Tmm10, beta=np.nan, gamma_beta=np.nan, gamma_b=np.nan, gamma_f=1.0,
                                                  B_berm=0.0, db=0.0, cot_alpha=np.nan, cot_alpha_down=np.nan,
                                                  cot_alpha_up=np.nan, c1=1.75, c2=4.3, c3=1.6, c4=1.0,
                                                  use_best_fit=False):
    if use_best_fit:
        c1, c2, c3, c4 = 1.65, 4.0, 1.5, 1.0
    cc = {"c1": c1, "c2": c2, "c3": c3, "c4": c4}
    if np.isnan(gamma_beta):
        if np.isnan(beta):
            raise ValueError("beta or gamma_beta")
        gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta)
    composite = check_composite_slope(cot_alpha, cot_alpha_down, cot_alpha_up)
    if composite:
        z = iteration_procedure_z2p(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up,
                                    B_berm=B_berm, db=db, gamma_f=gamma_f, gamma_beta=gamma_beta, **cc)
        cot_alpha = determine_average_slope(Hm0, z, cot_alpha_down, cot_alpha_up, B_berm, db)
    ksi = calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha)
    if np.isnan(gamma_b):
        L = calculate_berm_length(Hm0=Hm0, B_berm=B_berm, cot_alpha=cot_alpha, cot_alpha_down=cot_alpha_down,
                                  cot_alpha_up=cot_alpha_up)
        gamma_b = iteration_procedure_gamma_b(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_average=cot_alpha, B_berm=B_berm,
                                              L_berm=L, db=db, gamma_f=gamma_f, gamma_beta=gamma_beta, **cc)
    gf = calculate_adjusted_influence_roughness_gamma_f(gamma_f, gamma_b, ksi)
    za = c1 * gamma_b * gf * gamma_beta * ksi
    zb = c4 * gf * gamma_beta * (c2 - c3 / np.sqrt(ksi))
    check_validity_range(Hm0, Tmm10, gamma_f, gamma_b, gamma_beta, cot_alpha)
    return np.minimum(za, zb), zb <= za


def determine_average_slope(Hm0, z2p, cot_alpha_down, cot_alpha_up, B_berm, db):
    # tan a = (1.5 Hm0 + z2%) / (Lslope - B)
    return ((1.5 * Hm0 - db) * cot_alpha_down + (z2p + db) * cot_alpha_up) / (1.5 * Hm0 + z2p)


def iteration_procedure_z2p(Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, c1=1.75, c2=4.3,
                            c3=1.6, c4=1.0, use_best_fit=False, tolerance=1e-4, max_iter=1000):
    z = 1.5 * Hm0
    old = z + 1
    while abs(z - old) > tolerance:
        old = z
        gb = calculate_influence_berm_gamma_b(Hm0, z, db, B_berm, calculate_berm_length(
            Hm0=Hm0, B_berm=B_berm, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up))
        ca = determine_average_slope(Hm0, z, cot_alpha_down, cot_alpha_up, B_berm, db)
        zd, _ = calculate_dimensionless_wave_runup_height_z2p(
            Hm0=Hm0, Tmm10=Tmm10, cot_alpha=ca, gamma_b=gb, gamma_f=gamma_f, gamma_beta=gamma_beta, c1=c1, c2=c2, c3=c3,
            c4=c4, use_best_fit=use_best_fit)
        z = zd * Hm0
    return z


def calculate_berm_length(Hm0, B_berm, cot_alpha=np.nan, cot_alpha_down=np.nan, cot_alpha_up=np.nan):
    if not check_composite_slope(cot_alpha, cot_alpha_down, cot_alpha_up):
        return 2 * Hm0 * cot_alpha + B_berm
    return Hm0 * (cot_alpha_down + cot_alpha_up) + B_berm


def check_composite_slope(cot_alpha=np.nan, cot_alpha_down=np.nan, cot_alpha_up=np.nan):
    if np.isnan(cot_alpha) and (np.isnan(cot_alpha_down) or np.isnan(cot_alpha_up)):
        raise ValueError("slope missing")
    return not np.isnan(cot_alpha_down) and not np.isnan(cot_alpha_up)


def check_calculate_gamma_beta(beta, gamma_beta):
    if np.isnan(beta) and np.isnan(gamma_beta):
        raise ValueError("beta or gamma_beta")
    return np.isnan(gamma_beta)


def iteration_procedure_gamma_b(Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, c1=1.75, c2=4.3, c3=1.6,
                                c4=1.0, use_best_fit=False, gamma_f=1.0):
    if B_berm == 0 or L_berm == 0:
        return 1.0
    gb = 1.0
    for _ in range(2):
        zd, _m = calculate_dimensionless_wave_runup_height_z2p(
            Hm0=Hm0, Tmm10=Tmm10, cot_alpha=cot_alpha_average, gamma_b=gb, gamma_f=gamma_f, gamma_beta=gamma_beta, c1=c1,
            c2=c2, c3=c3, c4=c4, use_best_fit=use_best_fit)
        gb = calculate_influence_berm_gamma_b(Hm0, zd * Hm0, db, B_berm, L_berm)
    return gb


def calculate_influence_berm_gamma_b(Hm0, z2p, db, B_berm, L_berm):
    # gamma_b = 1 - B/L (1 - rdh), 0.6 <= gamma_b <= 1 ; x = z2% (berm above SWL) or 2Hm0 (below)
    if db > 2 * Hm0 or db < -z2p:
        rdh = 1.0
    else:
        rdh = 0.5 - 0.5 * np.cos(np.pi * db / (z2p if db < 0 else 2 * Hm0))
    return np.clip(1 - B_berm / L_berm * (1 - rdh), 0.6, 1.0)


def calculate_influence_oblique_waves_gamma_beta(beta, c_gamma_beta=0.0022, max_angle=80.0):
    return 1 - c_gamma_beta * min(abs(beta), max_angle)


def calculate_adjusted_influence_roughness_gamma_f(gamma_f, gamma_b, ksi_mm10):
    # linear increase of gamma_f between gamma_b ksi = 1.8 and 10 (as implemented: in terms of ksi)
    if 1.8 <= gamma_b * ksi_mm10 <= 10:
        return gamma_f + (1 - gamma_f) * (ksi_mm10 - 1.8) / 8.2
    return gamma_f
