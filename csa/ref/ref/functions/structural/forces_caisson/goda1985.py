"""Goda (1985, 2000): wave pressures on upright sections"""
import numpy as np
from ref.functions.core_physics import calculate_local_wavelength
from ref.functions.core_utility import check_variable_validity_range as check

F = "Goda (2000)"


def check_validity_range(beta=np.nan, cota_seabed=np.nan, Tmax=np.nan, tup=np.nan, Bup=np.nan, h_s=np.nan, B1=np.nan):
    if not np.isnan(beta):
        check("Angle of wave incidence", F, beta, 0.0, 90.0)
    if not np.isnan(cota_seabed):
        check("Seabed slope", F, cota_seabed, 10.0, 100.0)
    if not np.isnan(Tmax):
        check("Wave period", F, Tmax, 0.0, 30.0)
    if not np.isnan(tup * Bup):
        check("Centre of gravity inside of caisson", F, tup / Bup, 0.0, 1.0)
    if not np.isnan(h_s):
        check("Water depth at site", F, h_s, 0.0, np.inf)
    if not np.isnan(B1):
        check("Width of toe berm", F, B1, 0.0, np.inf)
    if not np.isnan(Bup):
        check("Width of caisson upright section", F, Bup, 0.0, np.inf)


def check_impulsive_breaking(beta=np.nan, B1=np.nan, L=np.nan, cota_seabed=np.nan, offshore_wave_steepness=np.nan,
                             Rc=np.nan, Hsi=np.nan, d=np.nan, h_s=np.nan):
    if not np.isnan(beta * B1 * L * cota_seabed * offshore_wave_steepness * Rc * Hsi):
        if beta < 20 and B1 / L < 0.02 and cota_seabed < 50 and offshore_wave_steepness < 0.03 and Rc / Hsi > 0.3:
            check("Impulsive breaking condition 1", F, True, False, False)
            return True
    if not np.isnan(beta * B1 * L * d * h_s * Rc * Hsi):
        if beta < 20 and B1 / L > 0.02 and B1 / L < 0.3 and d / h_s < 0.6 and Rc / Hsi > 0.3:
            check("Impulsive breaking condition 2", F, True, False, False)
            return True
    return False


def calculate_pressures_and_forces(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup,
                                   offshore_wave_steepness=np.nan, g=9.81, return_dict=False):
    ab = np.abs(beta)
    cb = np.cos(np.deg2rad(ab - 15 if ab >= 15 else 0))
    h5 = h_s + 5 * Hsi / cota_seabed
    L = calculate_local_wavelength(Tmax, h_s, g)
    k = 2 * np.pi / L
    eta = 0.75 * (1 + cb) * HD
    a1 = 0.6 + 0.5 * (2 * k * h_s / np.sinh(2 * k * h_s)) ** 2
    a2 = np.minimum((h5 - d) / (3 * h5) * (HD / d) ** 2, 2 * d / HD)
    a3 = 1 - hacc / h_s * (1 - 1 / np.cosh(k * h_s))
    p1 = 0.5 * (1 + cb) * (a1 + a2 * cb ** 2) * rho_water * g * HD
    p2 = p1 / np.cosh(k * h_s)
    p3 = a3 * p1
    p4 = p1 * (1 - Rc / eta) if eta > Rc else 0
    hc = np.minimum(eta, Rc)
    pu = 0.5 * (1 + cb) * a1 * a3 * rho_water * g * HD
    FH = 0.5 * (p1 + p3) * hacc + 0.5 * (p1 + p4) * hc
    MH = (2 * p1 + p3) * hacc ** 2 / 6 + (p1 + p4) * hacc * hc / 2 + (p1 + 2 * p4) * hc ** 2 / 6
    FU = pu * Bup / 2
    MU = 2 / 3 * FU * Bup
    imp = check_impulsive_breaking(ab, B1, L, cota_seabed, offshore_wave_steepness, Rc, Hsi, d, h_s)
    if return_dict:
        return {"FH": FH, "MH": MH, "FU": FU, "MU": MU, "hstar_c": hc, "h_5Hs": h5, "p1": p1, "p2": p2, "p3": p3,
                "p4": p4, "pu": pu, "etastar": eta, "alpha1": a1, "alpha2": a2, "alpha3": a3, "HD": HD, "Hsi": Hsi,
                "Tmax": Tmax, "beta": ab, "h_s": h_s, "d": d, "L": L, "cota_seabed": cota_seabed,
                "rho_water": rho_water, "hacc": hacc, "Rc": Rc, "Bup": Bup, "g": g, "impulsive_breaking": imp}
    return (FH, FU, MH, MU, p1, p2, p3, p4, hc, pu, h5, eta, L, a1, a2, a3, imp)


def calculate_Wup(hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g=9.81):
    return g * Bup * (hacc * (rho_fill_below_SWL - rho_water) + Rc * rho_fill_above_SWL)


def calculate_safety_factors(FU, FH, Wup, muf, tup, MH, MU):
    return (muf * (Wup - FU) / FH, (Wup * tup - MU) / MH)


def calculate_bearing_pressures(Wup, tup, MH, MU, FU, Bup):
    Me = Wup * tup - MU - MH
    We = Wup - FU
    te = Me / We
    pe = 2 * We / (3 * te) if te <= Bup / 3 else 2 * We / Bup * (2 - 3 * te / Bup)
    return (pe, Me, We, te)


def calculate_forces_and_reactions(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup,
                                   rho_fill_above_SWL=2400, rho_fill_below_SWL=2100, offshore_wave_steepness=np.nan,
                                   muf=0.6, tup_over_Bup=0.5, g=9.81, return_dict=False):
    (FH, FU, MH, MU, p1, p2, p3, p4, hc, pu, h5, eta, L, a1, a2, a3, imp) = calculate_pressures_and_forces(
        HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness, g)
    tup = tup_over_Bup * Bup
    W = calculate_Wup(hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g)
    pe, Me, We, te = calculate_bearing_pressures(W, tup, MH, MU, FU, Bup)
    s, o = calculate_safety_factors(FU, FH, W, muf, tup, MH, MU)
    check_validity_range(beta, cota_seabed, Tmax, tup, Bup, h_s, B1)
    if return_dict:
        return {"SF_overturning": o, "SF_sliding": s, "tup": tup, "Wup": W, "te": te, "We": We, "Me": Me, "pe": pe,
                "FH": FH, "MH": MH, "FU": FU, "MU": MU, "hstar_c": hc, "h_5Hs": h5, "p1": p1, "p2": p2, "p3": p3,
                "p4": p4, "pu": pu, "etastar": eta, "alpha1": a1, "alpha2": a2, "alpha3": a3, "HD": HD, "Hsi": Hsi,
                "Tmax": Tmax, "beta": beta, "h_s": h_s, "d": d, "L": L, "cota_seabed": cota_seabed,
                "rho_water": rho_water, "hacc": hacc, "Rc": Rc, "B_up": Bup, "g": g, "impulsive_breaking": imp,
                "is_valid": None}
    return (FH, FU, MH, MU, p1, pe, pu, imp, s, o)
