"""Van Gent & Van der Werf (2014)"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy
from ref.functions.core_utility import check_variable_validity_range as check

F = "van Gent & van der Werf (2014)"


def check_validity(Hs=np.nan, tt=np.nan, ht=np.nan, cot_alpha_armour_slope=np.nan):
    if not np.isnan(cot_alpha_armour_slope):
        check("Armour slope cot_alpha_armour_slope", F, cot_alpha_armour_slope, 1.5, 4)
        check("Armour slope cot_alpha_armour_slope, closer to 1:4 more inaccuracies are found", F,
              cot_alpha_armour_slope, 1.5, 2)
    if not np.isnan(ht * tt):
        check("Relative toe height tt/h", F, tt / (ht + tt), 0.1, 0.3)
    if not np.isnan(ht * tt * Hs):
        check("Relative water depth h/Hs", F, (ht + tt) / Hs, 1.2, 4.5)


def calculate_velocity_u_delta(Hs, Tmm10, ht, g=9.81):
    # u = pi Hs / T / sinh(k ht), k = 2 pi / L0
    return np.pi * Hs / Tmm10 / np.sinh(4 * np.pi**2 / (g * Tmm10**2) * ht)


def calculate_damage_Nod(Hm0, Tmm10, ht, Bt, tt, Dn50, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81, c1=0.032,
                         c2=0.3, c3=1.0, c4=3.0, c5=1.0):
    check_validity(Hm0, tt, ht, cot_alpha_armour_slope)
    u = calculate_velocity_u_delta(Hm0, Tmm10, ht, g)
    return (c1 * (Bt / Hm0) ** c2 * (tt / Hm0) ** c3 * (Hm0 / (buoy(rho_rock, rho_water) * Dn50)) ** c4
            * (u / np.sqrt(g * Hm0)) ** c5)


def calculate_nominal_diameter_Dn50(Hm0, Tmm10, ht, Bt, tt, Nod, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81):
    check_validity(Hm0, tt, ht, cot_alpha_armour_slope)
    u = calculate_velocity_u_delta(Hm0, Tmm10, ht, g)
    return (0.32 * Hm0 / buoy(rho_rock, rho_water) * Nod ** (-1 / 3) * (Bt / Hm0) ** 0.1 * (tt / Hm0) ** (1 / 3)
            * (u / np.sqrt(g * Hm0)) ** (1 / 3))
