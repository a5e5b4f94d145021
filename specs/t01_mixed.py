"""T01: fully mixed tank energy balance."""
from vengine.harness import harness
from . import RHO


def tank(v):
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    V = v.real("V", 0, lo_open=True, sample=(1, 5000))
    T = v.real("T", 33, 212)
    cold = v.real("cold0", 33, 90)
    pct = v.real("pct", 0, 1)
    t = v.call(MixedStorageTank, V)
    v.call(t.initialize, T, cold, pct)
    v.check("initial temperature", v.eq(v.call(t.get_temperature_at_fraction, v.real("f0", 0, 1)), T))
    return t, V, T


def temp(v, t):
    a = v.call(t.get_temperature_at_fraction, v.real("fa", 0, 1))
    b = v.call(t.get_temperature_at_fraction, v.real("fb", 0, 1))
    v.check("uniform temperature", v.eq(a, b))
    return a


@harness("T01")
def heat(v):
    """Heat added raises the stored energy by exactly that heat."""
    t, V, T = tank(v)
    q = v.real("kbtuh", -500, 2000)
    dur = v.real("dur", 0, 60)
    out = v.real("outlet", 100, 212)
    v.call(t.heat, q, dur, out)
    T2 = temp(v, t)
    v.check("energy added", v.eq((T2 - T) * V * RHO, v.mx(q, 0.0) * dur / 60.0 * 1000.0))
    v.check("volume unchanged", v.eq(t.total_volume_gal, V))


@harness("T01")
def fixed_loss(v):
    """A fixed heat loss lowers the stored energy by exactly that loss."""
    t, V, T = tank(v)
    q = v.real("kbtuh", -500, 2000)
    dur = v.real("dur", -5, 60)
    v.call(t.apply_fixed_heat_loss_kbtuh, q, dur)
    T2 = temp(v, t)
    v.check("energy removed", v.eq((T - T2) * V * RHO,
                                   v.mx(q, 0.0) * v.mx(dur, 0.0) / 60.0 * 1000.0))


@harness("T01")
def recirc(v):
    """Recirculation exchanges the circulated volume for water at the return temperature."""
    t, V, T = tank(v)
    flow = v.real("flow", 0, 50)
    ret = v.real("ret", 33, 200)
    dur = v.real("dur", 0, 60)
    v.call(t.add_recirc_return, flow, ret, dur)
    T2 = temp(v, t)
    v.check("energy exchanged", v.eq((T2 - T) * V, flow * dur * (ret - T)))
    v.check("no overshoot", v.implies(v.le(flow * dur, V),
                                      v.between(v.mn(T, ret), T2, v.mx(T, ret))))


@harness("T01")
def primary_inflow(v):
    """Hot inflow displaces an equal volume; energy is conserved and temperature stays between."""
    t, V, T = tank(v)
    g = v.real("gal", -10, 6000)
    Tp = v.real("Tp", 33, 212)
    v.call(t.mix_primary_inflow, g, Tp)
    T2 = temp(v, t)
    gg = v.mn(v.mx(g, 0.0), V)
    v.check("energy conserved", v.eq(T2 * V, gg * Tp + (V - gg) * T))
    v.check("between", v.between(v.mn(T, Tp), T2, v.mx(T, Tp)))


@harness("T01")
def physical_draw(v):
    """Drawing physical gallons replaces that volume with make-up water."""
    t, V, T = tank(v)
    g = v.real("gal", -10, 6000)
    Tin = v.real("Tin", 33, 180)
    v.check("draw temperature is the tank temperature", v.eq(v.call(t.get_average_draw_temp_f, g), T))
    if v.choice("pass_supply", [False, True]):
        v.call(t.draw_physical_gal, g, Tin, v.real("supply", 100, 140))
    else:
        v.call(t.draw_physical_gal, g, Tin)
    T2 = temp(v, t)
    gg = v.mn(v.mx(g, 0.0), V)
    v.check("energy conserved", v.eq(T2 * V, gg * Tin + (V - gg) * T))
    v.check("between", v.between(v.mn(T, Tin), T2, v.mx(T, Tin)))


@harness("T01")
def supply_draw(v):
    """A draw stated at supply temperature removes exactly its heat content above cold."""
    t, V, T = tank(v)
    g = v.real("gal", -10, 6000)
    cold = v.real("cold", 33, 90)
    sup = v.real("sup", 100, 140)
    out = v.real("outlet", 100, 212)
    v.call(t.draw, g, cold, sup, out)
    T2 = temp(v, t)
    removed = v.mx(g, 0.0) * (sup - cold)
    v.check("heat removed or tank emptied",
            v.implies(v.gt(T, cold + 0.001), v.eq((T2 - cold) * V, v.mx((T - cold) * V - removed, 0.0))))
    v.check("never below cold", v.le(v.mn(T, cold), T2))
    v.check("never heated", v.le(T2, T))


@harness("T01")
def usable(v):
    """The whole tank is usable exactly when it is at or above supply temperature."""
    t, V, T = tank(v)
    sup = v.real("sup", 60, 180)
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    v.check("hot enough", v.implies(v.le(sup, T, exact=True), v.eq(u, V)))
    v.check("too cold", v.implies(v.lt(T, sup, exact=True), v.eq(u, 0)))
