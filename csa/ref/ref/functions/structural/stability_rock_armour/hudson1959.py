"""Hudson (1959), SPM (1984): M50 = rho H^3 / (KD Delta^3 cot a), H = alpha_Hs Hs ; damage table SPM 7-9"""
import numpy as np
from ref.functions.core_physics import calculate_buoyant_density_Delta as buoy


def check_validity_range():
    pass


def calculate_median_rock_mass_M50_no_damage(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return rho_armour * (alpha_Hs * Hs) ** 3 / (KD * cot_alpha * buoy(rho_armour, rho_water) ** 3)


def calculate_significant_wave_height_Hs_no_damage(M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return (M50 / rho_armour * KD * cot_alpha) ** (1 / 3) * buoy(rho_armour, rho_water) / alpha_Hs


def lookup_table_damage_factors(damage_percentage, rock_type="rough"):
    t = rock_type.lower().strip()
    if t == "rough":
        f = [1.0, 1.0, 1.08, 1.14, 1.2, 1.29, 1.41, 1.54]
    elif t == "smooth":
        f = [1.0, 1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56]
    else:
        raise ValueError("Unknown rock type")
    if damage_percentage > 100:
        raise ValueError("more than all")
    if damage_percentage < 0:
        return f[0]
    if damage_percentage < 5:
        return f[1]
    if damage_percentage < 10:
        return f[2]
    if damage_percentage < 15:
        return f[3]
    if damage_percentage < 20:
        return f[4]
    if damage_percentage < 30:
        return f[5]
    if damage_percentage < 40:
        return f[6]
    return f[7]


def calculate_median_rock_mass_M50(Hs, rho_water, rho_armour, KD, cot_alpha, damage_percentage, rock_type="rough",
                                   alpha_Hs=1.27):
    f = lookup_table_damage_factors(damage_percentage, rock_type)
    return calculate_median_rock_mass_M50_no_damage(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs) / f ** 3


def calculate_significant_wave_height_Hs(M50, rho_water, rho_armour, KD, cot_alpha, damage_percentage, rock_type="rough",
                                         alpha_Hs=1.27):
    f = lookup_table_damage_factors(damage_percentage, rock_type)
    return f * calculate_significant_wave_height_Hs_no_damage(M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)
