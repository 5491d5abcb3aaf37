"""Solving the SMEFT RGEs."""


from . import beta
from copy import deepcopy
from math import pi, log
from scipy.integrate import solve_ivp
from refwilson.util import smeftutil
import numpy as np


def _symmetrize_beta(b):
    """Project the beta functions of C_ee and C_qqql onto the index symmetries
    of the operators.

    The operators fulfill the Fierz relations O_ee_prst = O_ee_stpr = O_ee_srpt
    and O_qqql_prst + O_qqql_rpst = O_qqql_sprt + O_qqql_srpt, but the beta
    functions as implemented in `beta.beta` contain terms that do not (and that
    only are equivalent to those that do when contracted with the operators)."""
    b['ee'] = (b['ee'] + np.swapaxes(b['ee'], 0, 2)) / 2
    b['qqql'] = (4 * b['qqql']
                 - np.einsum('psrt->prst', b['qqql'])
                 - np.einsum('rpst->prst', b['qqql'])
                 + np.einsum('rspt->prst', b['qqql'])
                 + np.einsum('sprt->prst', b['qqql'])
                 + 2 * np.einsum('srpt->prst', b['qqql'])) / 6
    return b


def smeft_evolve_leadinglog(C_in, scale_in, scale_out, newphys=True):
    """Solve the SMEFT RGEs in the leading log approximation.

    Input C_in and output C_out are dictionaries of arrays."""
    C_out = deepcopy(C_in)
    b = _symmetrize_beta(beta.beta(C_out, newphys=newphys))
    for k, C in C_out.items():
        C_out[k] = C + b[k] / (16 * pi**2) * log(scale_out / scale_in)
    return C_out


def _default_atol(C_in):
    """Absolute tolerances for the integration of the RGEs, in the format of
    the vector of (real and imaginary parts of) parameters and coefficients.

    The default of `solve_ivp` is much larger than typical coefficients
    in units of GeV^-2, so they would not be subject to any error control."""
    dim6 = [k for k in smeftutil.C_keys
            if k not in smeftutil.dim4_keys and k != 'llphiphi']
    size = {'llphiphi': np.max(np.abs(C_in['llphiphi']))}
    size.update(dict.fromkeys(dim6, max(np.max(np.abs(C_in[k])) for k in dim6)))
    atol = {k: np.full(np.shape(C), 1e-5 * size[k] if size.get(k) else 1e-9)
            for k, C in C_in.items()}
    return np.repeat(smeftutil.C_dict2array(atol).real, 2)


def _smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
    """Axuliary function used in `smeft_evolve` and `smeft_evolve_continuous`"""
    kwargs.setdefault('atol', _default_atol(C_in))
    def fun(t0, y):
        b = beta.beta(smeftutil.C_array2dict(y.view(complex)), newphys=newphys)
        b = smeftutil.C_dict2array(_symmetrize_beta(b))
        return b.view(float) / (16 * pi**2)
    y0 = smeftutil.C_dict2array(C_in).view(float)
    sol = solve_ivp(fun=fun,
                    t_span=(log(scale_in), log(scale_out)),
                    y0=y0, **kwargs)
    return sol


def smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
    """Solve the SMEFT RGEs by numeric integration.

    Input C_in and output C_out are dictionaries of arrays."""
    sol = _smeft_evolve(C_in, scale_in, scale_out, newphys=newphys, **kwargs)
    return smeftutil.C_array2dict(sol.y[:, -1].view(complex))


def smeft_evolve_continuous(C_in, scale_in, scale_out, newphys=True, **kwargs):
    """Solve the SMEFT RGEs by numeric integration, returning a function that
    allows to compute an interpolated solution at arbitrary intermediate
    scales."""
    sol = _smeft_evolve(C_in, scale_in, scale_out, newphys=newphys,
                        dense_output=True, **kwargs)
    all_wcs = set(smeftutil.all_wcs)
    @np.vectorize
    def _rge_solution(scale):
        t = log(scale)
        y = sol.sol(t).view(complex)
        yd = smeftutil.C_array2dict(y)
        yw = smeftutil.arrays2wcxf(smeftutil.unscale_dict(yd))
        # keep all non-redundant Wilson coefficients, including those that
        # vanish at this scale, and the SM parameters
        return {k: v for k, v in yw.items()
                if k in all_wcs or k.split('_')[0] in smeftutil.dim4_keys}
    def rge_solution(scale):
        # this is to return a scalar if the input is scalar
        return _rge_solution(scale)[()]
    return rge_solution
