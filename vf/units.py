"""Independent model of the units used in generated worlds: value in SI-like
base = scale*v + offset."""
FAMILIES = {
    "temp": {"K": (1.0, 0.0), "C": (1.0, 273.15)},
    "len": {"m": (1.0, 0.0), "mm": (1e-3, 0.0), "cm": (1e-2, 0.0), "um": (1e-6, 0.0), "km": (1e3, 0.0)},
    "time": {"s": (1.0, 0.0), "min": (60.0, 0.0), "h": (3600.0, 0.0), "d": (86400.0, 0.0)},
    "mr": {"kg kg-1": (1.0, 0.0), "g kg-1": (1e-3, 0.0)},
    "ang": {"radian": (1.0, 0.0), "degree": (0.017453292519943295, 0.0), "degree_north": (0.017453292519943295, 0.0),
            "degree_east": (0.017453292519943295, 0.0)},
    "pres": {"Pa": (1.0, 0.0), "hPa": (100.0, 0.0)},
    "vel": {"m s-1": (1.0, 0.0), "km h-1": (1.0 / 3.6, 0.0)},
    "flux": {"W m-2": (1.0, 0.0), "erg cm-2 s-1": (1e-3, 0.0)},
}
# conversions the framework documents (either direction)
PAIRS = {
    "temp": [("K", "C")],
    "len": [("mm", "m"), ("cm", "m"), ("um", "m"), ("m", "km"), ("mm", "km")],
    "time": [("s", "min"), ("s", "h"), ("h", "d"), ("s", "d")],
    "mr": [("kg kg-1", "g kg-1")],
    "ang": [("radian", "degree"), ("radian", "degree_north"), ("radian", "degree_east")],
    "pres": [("Pa", "hPa")],
    "vel": [("m s-1", "km h-1")],
    "flux": [("W m-2", "erg cm-2 s-1")],
}
UNITS_ONLY = ["kg m-3", "J kg-1", "W m-2 K-1", "m2 s-2", "1", "Pa s-1", "frac", "none", "kg m-2 s-1"]


def partners(fam, u):
    res = []
    for a, b in PAIRS[fam]:
        if a == u:
            res.append(b)
        elif b == u:
            res.append(a)
    return res


def family_of(u):
    for f, us in FAMILIES.items():
        if u in us:
            return f
    return None


def convert(v, ufrom, uto):
    """v expressed in <ufrom> -> expressed in <uto>"""
    if ufrom == uto:
        return v
    fam = family_of(ufrom)
    s1, o1 = FAMILIES[fam][ufrom]
    s2, o2 = FAMILIES[fam][uto]
    return (v * s1 + o1 - o2) / s2
