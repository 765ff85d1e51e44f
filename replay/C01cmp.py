from world import *

abc_of = lambda a: (a.pre_exponential_factor, a.temperature_exponent, a.activation_energy)


def rate_data(rate):
    if hasattr(rate, "low_rate"):
        return [abc_of(rate.low_rate), abc_of(rate.high_rate), [float(x) for x in rate.falloff_coeffs], rate.chemically_activated]
    if hasattr(rate, "rates"):
        return [(p, abc_of(r)) for p, r in rate.rates]
    if hasattr(rate, "data"):
        return [list(rate.temperature_range), list(rate.pressure_range), rate.data.tolist()]
    return list(abc_of(rate))


def same(a, b, rel=1e-9):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, float):
        return close(a, b, rel)
    return a == b


def sp_data(s):
    t = s.transport
    th = s.thermo
    return (s.name, dict(s.composition), s.charge, th.min_temp, th.max_temp, th.reference_pressure, list(map(float, th.coeffs)),
            None if t is None else (t.geometry, t.diameter, t.well_depth, t.dipole, t.polarizability, t.rotational_relaxation, t.acentric_factor))


def dec(r):
    """everything about a reaction except rate and third-body efficiencies"""
    t = r.third_body
    return (r.reaction_type, r.equation, dict(r.reactants), dict(r.products), r.duplicate, r.reversible, type(r.rate).__name__,
            None if t is None else t.default_efficiency)


def same_model(a, c, rel=1e-6):
    """None, or the first difference"""
    if a.species_names != c.species_names:
        return f"species {a.species_names} / {c.species_names}"
    for s, o in zip(a.species(), c.species()):
        if not same(sp_data(s), sp_data(o), rel):
            return f"species {s.name}"
    ra, rc = a.reactions(), c.reactions()
    if [r.equation for r in ra] != [r.equation for r in rc]:
        return "reactions"
    for r, o in zip(ra, rc):
        if dec(r) != dec(o) or not same(rate_data(r.rate), rate_data(o.rate), rel):
            return f"reaction {r.equation}"
        if r.third_body is not None and dict(r.third_body.efficiencies) != dict(o.third_body.efficiencies):
            return f"efficiencies of {r.equation}"
    return None
