"""Documented default input parameters."""
DEFAULTS = {'m_W': 80.385, 'm_Z': 91.1876, 'GF': 1.1663787e-5, 'alpha_e': 1 / 127.9, 'alpha_s': 0.1185,
            'Vus': 0.2243, 'Vub': 3.62e-3, 'Vcb': 4.221e-2, 'gamma': 1.27, 'm_b': 4.18, 'm_s': 0.095,
            'm_e': 0.0005109989461, 'm_mu': 0.1056583745, 'm_tau': 1.77686}
