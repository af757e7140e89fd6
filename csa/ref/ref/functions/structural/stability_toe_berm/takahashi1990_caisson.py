"""Takahashi et al. (1990) / Tanimoto et al. (1983); the table and step searches for Hs and hacc are not specified here"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy, calculate_local_wavelength
from ref.functions.core_utility import check_variable_validity_range as check

F = "Takahashi et al (1990)"


def check_validity(Ns=np.nan, Bt=np.nan):
    if not np.isnan(Ns):
        check("Stability number Ns", F, Ns, 0, np.inf)
    if not np.isnan(Bt):
        check("Toe width Bt", F, Bt, 0, np.inf)


def calculate_stability_number_Ns(Hs, Tp, hacc, Bt, beta, g=9.81):
    b = np.deg2rad(beta)
    k = 2 * np.pi / calculate_local_wavelength(Tp, hacc, g)
    x = 2 * k * hacc
    k1 = x / np.sinh(x)
    k2 = np.maximum(0.45 * np.sin(b) ** 2 * np.cos(k * Bt * np.cos(b)) ** 2, np.cos(b) ** 2 * np.sin(k * Bt * np.cos(b)) ** 2)
    kap = k1 * k2
    r = np.maximum(1.8, 1.3 * (1 - kap) / kap ** (1 / 3) * hacc / Hs
                   + 1.8 * np.exp(-1.5 * (1 - kap) ** 2 / kap ** (1 / 3) * hacc / Hs))
    check_validity(r, Bt)
    return r


def calculate_nominal_diameter_Dn50(Hs, Tp, hacc, Bt, rho_rock, rho_water, beta, g=9.81):
    return Hs / (buoy(rho_rock, rho_water) * calculate_stability_number_Ns(Hs, Tp, hacc, Bt, beta, g))
