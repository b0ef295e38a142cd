"""Running of alpha_s and quark masses: decoupling at 170, 4.8 and 1.3 GeV
(top, bottom, charm), three loops, alpha_s given at MZ with five flavours."""
MZ = 91.1876
LOOP = 3
TOP, BOTTOM, CHARM = (170, 170, 6), (4.8, 4.8, 5), (1.3, 1.3, 4)


def alpha_s(rd, eq, scale, f, asMZ=0.1185):
    """rd(method, *args) with a threshold given as a tuple; eq(a, b) -> bool."""
    if f == 5:
        if eq(scale, MZ):
            return asMZ
        return rd('AlphasExact', asMZ, MZ, scale, 5, LOOP)
    if f == 6:
        return rd('AlL2AlH', asMZ, MZ, TOP, scale, LOOP)
    if f == 4:
        return rd('AlH2AlL', asMZ, MZ, BOTTOM, scale, LOOP)
    if f == 3:
        return rd('AlH2AlL', rd('AlH2AlL', asMZ, MZ, BOTTOM, 1.3, LOOP), 1.3, CHARM, scale, LOOP)
    return None


def m_b(rd, eq, mbmb, scale, f, asMZ=0.1185):
    if f not in (3, 4, 5, 6):
        return None
    if f == 5 and eq(scale, mbmb):
        return mbmb
    a = alpha_s(rd, eq, mbmb, 5, asMZ)
    if f == 5:
        return rd('mMS2mMS', mbmb, a, alpha_s(rd, eq, scale, 5, asMZ), 5, LOOP)
    if f == 4:
        return rd('mH2mL', mbmb, a, mbmb, BOTTOM, scale, LOOP)
    if f == 3:
        m = rd('mH2mL', mbmb, a, mbmb, BOTTOM, 1.3, LOOP)
        return rd('mH2mL', m, alpha_s(rd, eq, 1.3, 4, asMZ), 1.3, CHARM, scale, LOOP)
    return rd('mL2mH', mbmb, a, mbmb, TOP, scale, LOOP)


def m_c(rd, eq, mcmc, scale, f, asMZ=0.1185):
    if f not in (3, 4, 5):
        return None
    if f == 4 and eq(scale, mcmc):
        return mcmc
    a = alpha_s(rd, eq, mcmc, 4, asMZ)
    if f == 4:
        return rd('mMS2mMS', mcmc, a, alpha_s(rd, eq, scale, 4, asMZ), 4, LOOP)
    if f == 3:
        return rd('mH2mL', mcmc, a, mcmc, CHARM, scale, LOOP)
    return rd('mL2mH', mcmc, a, mcmc, BOTTOM, scale, LOOP)


def m_s(rd, eq, ms2, scale, f, asMZ=0.1185):
    if f not in (3, 4, 5):
        return None
    if f == 3 and eq(scale, 2):
        return ms2
    a = alpha_s(rd, eq, 2, 3, asMZ)
    if f == 3:
        return rd('mMS2mMS', ms2, a, alpha_s(rd, eq, scale, 3, asMZ), 3, LOOP)
    if f == 4:
        return rd('mL2mH', ms2, a, 2, CHARM, scale, LOOP)
    m = rd('mL2mH', ms2, a, 2, CHARM, 1.3, LOOP)
    return rd('mL2mH', m, alpha_s(rd, eq, 1.3, 4, asMZ), 1.3, BOTTOM, scale, LOOP)
