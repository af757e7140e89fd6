"""Van Gent (2024) structure-induced set-up"""
import numpy as np
from ref.functions.core_physics import calculate_wave_steepness_s
from ref.functions.core_utility import check_variable_validity_range as check

F = "Van Gent (2024)"


def check_validity_range(Hm0=np.nan, Tmm10=np.nan, Rc=np.nan, B=np.nan, hc=np.nan, Dn50=np.nan, structure_type="impermeable"):
    imp, per = structure_type == "impermeable", structure_type == "permeable"
    if imp or per:
        if not np.isnan(Hm0 * Tmm10):
            check("Wave steepness sm-1,0", F, calculate_wave_steepness_s(Hm0, Tmm10), 0.01 if imp else 0.008, 0.04)
        if not np.isnan(Hm0 * Rc):
            check("Dimensionless freeboard Rc/Hm0", F, Rc / Hm0, -1.0 if imp else -0.8, 0.0)
    if per:
        if not np.isnan(Hm0 * hc):
            check("Dimensionless submerged structure height hc/Hm0", F, hc / Hm0, 1.5, 3.0)
        if not np.isnan(Hm0 * B):
            check("Dimensionless submerged structure crest width B/Hm0", F, B / Hm0, 0.94, 2.35)
        if not np.isnan(Hm0 * Dn50):
            check("Dimensionless median stone diameter Dn50/Hm0", F, Dn50 / Hm0, 0.19, 0.47)


def calculate_structure_induced_setup_delta_impermeable(Hm0, Tmm10, Rc):
    return Hm0 * calculate_dimensionless_structure_induced_setup_impermeable(Hm0, Tmm10, Rc)


def calculate_dimensionless_structure_induced_setup_impermeable(Hm0, Tmm10, Rc):
    check_validity_range(Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, structure_type="impermeable")
    return 0.34 * calculate_wave_steepness_s(Hm0, Tmm10) ** 0.4 * (Rc / Hm0 + 1.6) ** 3.5


def calculate_structure_induced_setup_delta_permeable(Hm0, Tmm10, Rc, hc):
    return Hm0 * calculate_dimensionless_structure_induced_setup_permeable(Hm0, Tmm10, Rc, hc)


def calculate_dimensionless_structure_induced_setup_permeable(Hm0, Tmm10, Rc, hc):
    check_validity_range(Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, hc=hc, structure_type="permeable")
    return 0.22 * calculate_wave_steepness_s(Hm0, Tmm10) ** 0.2 * (hc / Hm0) ** -0.7 * (Rc / Hm0 + 1.5) ** 1.5
