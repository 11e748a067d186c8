"""Construction of copulas from JSON cases."""
import numpy as np

import ref


def make_arch(c):
    import copulae as cp
    fam, d, t = c["fam"], c["dim"], c.get("theta")
    if fam == "indep":
        return cp.IndepCopula(d)
    cls = {"clayton": cp.ClaytonCopula, "frank": cp.FrankCopula, "gumbel": cp.GumbelCopula}[fam]
    return cls(t, d)


def make_ell(c):
    import copulae as cp
    d, r = c["dim"], c["rho"]
    if c["fam"] == "gaussian":
        k = cp.GaussianCopula(d)
        k.params = np.array(r, float)
    else:
        k = cp.StudentCopula(d, df=c["df"])
        k.params = np.array([c["df"], *r], float)
    return k


def make(c):
    return make_ell(c) if c["fam"] in ("gaussian", "student") else make_arch(c)


def overflow_safe(c, pts):
    """Generators like u**-theta must fit in a double (a limit of the number format, not of the property)."""
    if c["fam"] != "clayton":
        return True
    m = min(min(p) for p in pts if min(p) > 0) if any(min(p) > 0 for p in pts) else 1
    return abs(c["theta"]) * -np.log(max(m, 1e-300)) < 600
