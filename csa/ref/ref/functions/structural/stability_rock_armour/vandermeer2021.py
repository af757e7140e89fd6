"""Van der Meer (2021): the modified formulae in terms of Hs with 6.49 / 0.97"""
import numpy as np
import ref.functions.structural.stability_rock_armour.vandermeer1988 as vdm
import ref.functions.structural.stability_rock_armour.vandermeer1988_modified as mod


def calculate_damage_number_S(Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=np.nan, M50=np.nan, c_pl=6.49, c_s=0.97,
                              c_pl_mult=1.0, c_s_mult=1.0):
    r = mod.calculate_damage_number_S(Hs=Hs, H2p=Hs, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, P=P,
                                      rho_armour=rho_armour, Dn50=Dn50, M50=M50, c_pl=c_pl * c_pl_mult,
                                      c_s=c_s * c_s_mult)
    vdm.check_validity_range(P=P, Hs=Hs, cot_alpha=cot_alpha, rho_armour=rho_armour, N_waves=N_waves)
    return r


def calculate_nominal_rock_diameter_Dn50(Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=6.49, c_s=0.97,
                                         c_pl_mult=1.0, c_s_mult=1.0):
    r = mod.calculate_nominal_rock_diameter_Dn50(Hs=Hs, H2p=Hs, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha, P=P,
                                                 rho_armour=rho_armour, S=S, c_pl=c_pl * c_pl_mult, c_s=c_s * c_s_mult)
    vdm.check_validity_range(P=P, Hs=Hs, cot_alpha=cot_alpha, rho_armour=rho_armour, N_waves=N_waves)
    return r


def calculate_significant_wave_height_Hs(Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=np.nan, M50=np.nan, c_pl=6.49,
                                         c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0, g=9.81):
    r = mod.calculate_significant_wave_height_Hs(ratio_H2p_Hs=1.0, Tmm10=Tmm10, N_waves=N_waves, cot_alpha=cot_alpha,
                                                 P=P, rho_armour=rho_armour, S=S, Dn50=Dn50, M50=M50,
                                                 c_pl=c_pl * c_pl_mult, c_s=c_s * c_s_mult, g=g)
    vdm.check_validity_range(P=P, Hs=r, cot_alpha=cot_alpha, rho_armour=rho_armour, N_waves=N_waves)
    return r
