"""Van Gent (2002) overtopping velocity at the rear side of the crest"""
import numpy as np


def calculate_maximum_wave_overtopping_velocity_uXp(Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1=1.7, cu2=0.1, g=9.81):
    return cu1 * np.sqrt(g * gamma_f_Crest) * np.sqrt((zXp - Rc) / gamma_f) / (1 + cu2 * Bc / Hs)


def _invert_for_zXp(Hs, uXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1=1.7, cu2=0.1, g=9.81):
    return Rc + gamma_f * (uXp * (1 + cu2 * Bc / Hs)) ** 2 / (g * cu1 ** 2 * gamma_f_Crest)
