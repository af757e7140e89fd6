"""Goda et al. (1967): Kt = 0.5 (1 - sin(pi/2 (Rc/H + beta)/alpha)) for beta-alpha < Rc/H < alpha-beta; 1 / 0.03 outside"""
import numpy as np


def calculate_wave_transmission_Kt(Hsi, Rc, alpha_1=2.2, beta_1=0.4):
    r = Rc / Hsi
    if r <= -alpha_1 - beta_1:
        return 1.0
    if r <= alpha_1 - beta_1:
        return 0.5 - 0.5 * np.sin(np.pi * (r + beta_1) / (2 * alpha_1))
    return 0.03
