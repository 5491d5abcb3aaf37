"""Standard Model parameter values."""

p = {}

p['m_W'] = 80.385
p['m_Z'] = 91.1876
p['m_h'] = 125.
p['GF'] = 1.1663787e-5
p['alpha_e'] = 1/127.9
p['alpha_s'] = 0.1185
p['Vus'] = 0.2243
p['Vub'] = 3.62e-3
p['Vcb'] = 4.221e-2
p['gamma'] = 1.27
p['m_b'] = 4.18
p['m_s'] = 0.095
p['m_c'] = 1.28
p['m_u'] = 0.0022
p['m_d'] = 0.0047
p['m_e'] = 0.0005109989461
p['m_mu'] = 0.1056583745
p['m_tau'] = 1.77686
