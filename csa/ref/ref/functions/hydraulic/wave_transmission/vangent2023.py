"""Van Gent et al. (2023): Kt = c1 tanh(-(Rc/Hm0 + c2 (B/Lm-1,0)^c3 + c4)) + c5"""
import numpy as np
from ref.functions.core_physics import calculate_local_wavelength
from ref.functions.core_utility import check_variable_validity_range as check

F = "Van Gent et al. (2023)"
C = {
    "impermeable": (0.47, 3.1, 0.75, 0.0, 0.5),
    "permeable": (0.43, 3.1, 0.75, -0.25, 0.5),
    "perforated": (0.13, 3.1, 0.75, -0.15, 0.82),
    "perforated_with_screen": (0.4, 3.1, 0.75, -0.15, 0.5),
    "perforated_with_perforated_screen": (0.17, 3.1, 0.75, -0.15, 0.76),
}


def check_validity_range(Hm0=np.nan, Tmm10=np.nan, Rc=np.nan, B=np.nan, structure_type=np.nan):
    if not np.isnan(Hm0 * Rc):
        check("Dimensionless crest height Rc / Hm0", F, Rc / Hm0, -2.5, 2.5 if structure_type == "permeable" else 0.0)
    if not np.isnan(B * Tmm10):
        check("Dimensionless crest width B / Lm-1,0", F, B / calculate_local_wavelength(Tmm10, 1e100), 0.017, 0.27)
    if not np.isnan(Hm0 * B):
        check("Dimensionless crest width B / Hm0", F, B / Hm0, 0.9, 10.6)


def calculate_wave_transmission_Kt(Hm0, Tmm10, Rc, B, structure_type="permeable"):
    if structure_type not in C:
        raise ValueError("unknown structure type")
    c1, c2, c3, c4, c5 = C[structure_type]
    L = calculate_local_wavelength(Tmm10, 1e100)
    check_validity_range(Hm0, Tmm10, Rc, B, structure_type)
    return c5 - c1 * np.tanh(Rc / Hm0 + c2 * (B / L) ** c3 + c4)
