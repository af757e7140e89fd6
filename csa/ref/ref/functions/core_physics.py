"""Reference relations (text-book definitions); parsed by the analyser, never executed."""
import numpy as np
import deltares_wave_toolbox.cores.core_dispersion as dispersion


def calculate_wave_steepness_s(H, T, g=9.81):
    # s = H / L0, L0 = g T^2 / 2 pi
    return H / (g * T**2 / (2 * np.pi))


def calculate_Iribarren_number_ksi(H, T, cot_alpha):
    # surf similarity: tan(alpha) / sqrt(s)
    return (1 / cot_alpha) / np.sqrt(2 * np.pi * H / (9.81 * T**2))


def calculate_critical_Iribarren_number_ksi_mc(c_pl, c_s, P, cot_alpha):
    # Van der Meer (1988): (cpl/cs P^0.31 sqrt(tan a))^(1/(P+0.5))
    return (c_pl / c_s * P**0.31 * cot_alpha**-0.5) ** (1 / (P + 0.5))


def calculate_stability_number_Ns(H, D, rho_rock, rho_water):
    return H / ((rho_rock / rho_water - 1) * D)


def calculate_buoyant_density_Delta(rho_rock, rho_water):
    return rho_rock / rho_water - 1


def calculate_M50_from_Dn50(Dn50, rho_rock=2650):
    return rho_rock * Dn50**3


def calculate_Dn50_from_M50(M50, rho_rock=2650):
    return (M50 / rho_rock) ** (1 / 3)


def check_usage_Dn50_or_M50(Dn50, M50, rho_rock):
    if np.isnan(Dn50) and np.isnan(M50):
        raise ValueError("Either Dn50 or M50")
    if not np.isnan(Dn50):
        return Dn50
    if np.isnan(rho_rock):
        rho_rock = 2650
    return (M50 / rho_rock) ** (1 / 3)


def calculate_S_from_Nod(Nod, G, nv):
    return Nod / (G * (1 - nv))


def calculate_Nod_from_S(S, G, nv):
    return S * G * (1 - nv)


def check_usage_stabilitynumber(Hs=None, Dn=None, Delta=None, Ns=None):
    n = sum([Hs is None, Dn is None, Delta is None, Ns is None])
    if n != 1:
        raise ValueError("exactly one missing")
    if Hs is None:
        return (Ns * Delta * Dn, "Hs")
    if Dn is None:
        return (Hs / (Ns * Delta), "Dn")
    if Delta is None:
        return (Hs / (Ns * Dn), "Delta")
    return (Hs / (Delta * Dn), "Ns")


def calculate_local_wavelength(T, h, g=9.81):
    # L = 2 pi / k, with k from the dispersion relation w^2 = g k tanh(k h)
    return 2 * np.pi / dispersion.disper(w=2 * np.pi / T, h=h, g=g)[0]
