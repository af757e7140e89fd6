"""Van Gent et al. (2025), appendix B"""
import numpy as np
from ref.functions.core_physics import calculate_Iribarren_number_ksi, calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "Van Gent et al. (2025)"


def check_validity_range(Hm0=np.nan, Hm0_deep=np.nan, Tmm10=np.nan, beta=np.nan, h=np.nan, cot_alpha=np.nan, Dn50=np.nan,
                         Rc=np.nan, Ac=np.nan, Gc=np.nan, B_berm=np.nan, db=np.nan):
    if not np.isnan(cot_alpha):
        check("Cotangent alpha slope", F, cot_alpha, 1.5, 8.0)
    if not np.isnan(Hm0 * Tmm10):
        check("Wave steepness sm-1,0", F, calculate_wave_steepness_s(Hm0, Tmm10), 0.001, 0.042)
    if not np.isnan(Hm0 * Tmm10 * cot_alpha):
        check("Iribarren number ksi_m-1,0", F, calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha), 0.05, 6.0)
    if not np.isnan(Hm0 * h):
        check("Relative water depth h / Hm0", F, h / Hm0, 0.6, 5.0)
    if not np.isnan(Hm0_deep * h):
        check("Ratio Hm0_deep / h", F, Hm0_deep / h, 0.0, 1.0)
    if not np.isnan(Hm0 * Rc):
        check("Non-dimensional crest freeboard Rc / Hm0", F, Rc / Hm0, 0.6, 5.0)
    if not np.isnan(Hm0 * Dn50):
        check("Non-dimensional stone diameter Dn50 / Hm0", F, Dn50 / Hm0, 0.12, 0.9)
    if not np.isnan(Hm0 * Rc * Ac):
        check("Non-dimensional protruding part of crest wall (Rc - Ac) / Hm0", F, (Rc - Ac) / Hm0, 0.0, 0.68)
    if not np.isnan(Hm0 * Gc):
        check("Non-dimensional armour width in front of crest wall Gc / Hm0", F, Gc / Hm0, 0.6, 5.0)
    if not np.isnan(Hm0 * B_berm):
        check("Non-dimensional Berm width B / Hm0", F, B_berm / Hm0, 0.6, 5.0)
    if not np.isnan(Hm0 * db):
        check("Non-dimensional Berm height db / Hm0", F, db / Hm0, -1.7, 0.5)
    if not np.isnan(beta):
        check("Incident wave angle beta", F, beta, 0.0, 75.0)


def calculate_overtopping_discharge_q(Hm0, g=9.81, **kw):
    q, m = calculate_dimensionless_overtopping_discharge_q(Hm0=Hm0, **kw)
    return q * np.sqrt(g * Hm0 ** 3), m


def _fac(Hm0, Tmm10, Ac, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta):
    s = calculate_wave_steepness_s(Hm0, Tmm10)
    if np.isnan(gamma_beta):
        if np.isnan(beta):
            raise ValueError("beta or gamma_beta")
        gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta)
    if np.isnan(gamma_b):
        gamma_b = calculate_influence_berm_gamma_b(Hm0, s, Ac, B_berm, Ac - db)
    if np.isnan(gamma_f):
        if np.isnan(Dn50):
            raise ValueError("gamma_f or Dn50")
        gamma_f = calculate_influence_friction_gamma_f(Dn50, Hm0, s)
    return gamma_f * gamma_b * gamma_beta


def calculate_dimensionless_overtopping_discharge_q(Hm0, Hm0_swell, Tmm10, Rc, Ac, cot_alpha=np.nan, beta=np.nan,
                                                    B_berm=0.0, db=0.0, Dn50=np.nan, gamma_f=np.nan, gamma_b=np.nan,
                                                    gamma_v=np.nan, gamma_beta=np.nan, design_calculation=True,
                                                    include_influence_wind=False):
    if np.isnan(cot_alpha):
        raise ValueError("cot_alpha")
    G = _fac(Hm0, Tmm10, Ac, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    G = G * (calculate_influence_crest_wall_gamma_v(cot_alpha, Rc, Ac) if np.isnan(gamma_v) else gamma_v)
    ksi = calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha)
    r = (Rc - 0.4 * Hm0_swell) / Hm0
    q1 = 6.8 / cot_alpha * np.exp(-5.0 * r / (G * ksi))
    q2 = 0.8 / cot_alpha * np.exp(-2.5 * r / (G * ksi ** 0.24))
    q = np.minimum(q1, q2)
    if include_influence_wind:
        q = q * calculate_influence_wind_gamma_w(Rc, Ac, Hm0, q)
    if design_calculation:
        q = q ** 0.857
    check_validity_range(Hm0=Hm0, Tmm10=Tmm10, beta=beta, cot_alpha=cot_alpha, Dn50=Dn50, Rc=Rc, Ac=Ac, B_berm=B_berm,
                         db=db)
    return q, q2 <= q1


def q_diml_max_equation(Hm0, Hm0_swell, ksi_mm10, cot_alpha, Rc, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5):
    return c2 / cot_alpha * np.exp(c3 * (Rc - 0.4 * Hm0_swell)
                                   / (gamma_f * gamma_b * gamma_v * gamma_beta * ksi_mm10 ** 0.24 * Hm0))


def calculate_influence_friction_gamma_f(Dn50, Hm0, smm10, c_f1=0.7, c_f2=0.05, smm10_lim=0.012):
    g1 = 1 - c_f1 * (Dn50 / Hm0) ** c_f2
    if smm10 >= smm10_lim:
        return g1
    return g1 + 12 * (smm10_lim - smm10) * (1 - g1)


def calculate_influence_berm_gamma_b(Hm0, smm10, Ac, B_berm, BL, c_b1=18.0, c_b2=1.3, c_b3=0.34, c_b4=0.2):
    return 1 - c_b1 * (smm10 * B_berm / Hm0) ** c_b2 * (1 - c_b3 * (BL / (smm10 * Ac)) ** c_b4)


def calculate_influence_oblique_waves_gamma_beta(beta, c_beta=0.35):
    return (1 - c_beta) * np.cos(np.radians(beta)) ** 2 + c_beta


def calculate_influence_crest_wall_gamma_v(cot_alpha, Rc, Ac, c_v=0.45):
    p = (Rc - Ac) / Rc
    return 1 + c_v * p if cot_alpha <= 4 else 1 + 0.1125 * cot_alpha * p


def calculate_influence_wind_gamma_w(Rc, Ac, Hm0, q_diml, c_w1=0.075, c_w2=-0.3):
    return 1 + c_w1 * (Rc - Ac) / Hm0 * q_diml ** c_w2


def calculate_crest_freeboard_Rc(Hm0, **kw):
    r, m = calculate_dimensionless_crest_freeboard(Hm0=Hm0, **kw)
    return r * Hm0, m


def calculate_dimensionless_crest_freeboard(Hm0, Hm0_swell, Tmm10, q, Ac, cot_alpha=np.nan, beta=np.nan, B_berm=0.0,
                                            db=0.0, Dn50=np.nan, gamma_f=np.nan, gamma_b=np.nan, gamma_v=np.nan,
                                            gamma_beta=np.nan, g=9.81, design_calculation=True,
                                            include_influence_wind=False, max_iter=1000, tolerance=1e-5):
    if np.isnan(cot_alpha):
        raise ValueError("cot_alpha")
    G = _fac(Hm0, Tmm10, Ac, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    if np.isnan(gamma_v):
        raise ValueError("gamma_v")
    G = G * gamma_v
    ksi = calculate_Iribarren_number_ksi(Hm0, Tmm10, cot_alpha)
    q0 = q / np.sqrt(g * Hm0 ** 3)
    if design_calculation:
        q0 = q0 ** (1 / 0.857)
    r, m = _gov(q0, cot_alpha, G, ksi, Hm0_swell / Hm0)
    if include_influence_wind:
        qi = q0
        dif = np.inf
        while np.max(dif) > tolerance:
            qi = q0 / calculate_influence_wind_gamma_w(r * Hm0, Ac, Hm0, qi)
            old = r
            r, m = _gov(qi, cot_alpha, G, ksi, Hm0_swell / Hm0)
            dif = np.abs(r - old)
    check_validity_range(Hm0=Hm0, Tmm10=Tmm10, beta=beta, cot_alpha=cot_alpha, Dn50=Dn50, Rc=r * Hm0, Ac=Ac,
                         B_berm=B_berm, db=db)
    return r, m


def _gov(q, cot_alpha, G, ksi, sw):
    r1 = -np.log(q * cot_alpha / 6.8) / 5.0 * G * ksi + 0.4 * sw
    r2 = -np.log(q * cot_alpha / 0.8) / 2.5 * G * ksi ** 0.24 + 0.4 * sw
    return np.minimum(r1, r2), r2 <= r1


def Rc_diml_max_equation(Hm0, Hm0_swell, q, cot_alpha, ksi_mm10, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5,
                         g=9.81):
    return (np.log(q / np.sqrt(g * Hm0 ** 3) * cot_alpha / c2) / c3 * gamma_f * gamma_b * gamma_v * gamma_beta
            * ksi_mm10 ** 0.24 + 0.4 * Hm0_swell / Hm0)
