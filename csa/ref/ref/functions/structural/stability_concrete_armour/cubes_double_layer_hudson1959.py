"""Hudson formula, Hs based"""
import numpy as np
import ref.functions.structural.stability_rock_armour.hudson1959 as hudson


def check_validity_range():
    pass


def calculate_unit_mass_M(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.0):
    return hudson.calculate_median_rock_mass_M50_no_damage(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)


def calculate_significant_wave_height_Hs(M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.0):
    return hudson.calculate_significant_wave_height_Hs_no_damage(M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)
