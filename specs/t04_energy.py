"""T04: the tank of multi-pass plants keeps its heat account (energy tank and slug overlay)."""
from vengine.harness import harness, Contract, Loop, CONTRACTS
from . import RHO

TOL = 2e-5


# ------------------------------------------------------------------ contracts
def any_etank(v, dead=True):
    """An energy tank in any state: sizes, temperatures, slope, heat content, dead volume at the bottom."""
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    vol = v.real("vol", 0, lo_open=True, sample=(20, 3000))
    cold, sto = v.real("cold", 32, 211, sample=(35, 75)), v.real("sto", 32, 212, sample=(120, 180))
    v.assume(v.lt(cold, sto))
    slope = v.real("slope", 0, lo_open=True, sample=(0.5, 6))
    t = v.call(EnergyTank, vol, cold, sto, slope)
    t._cold_pct, t._energy_btu                      # not there: not applicable
    if dead:
        t._cold_pct = v.real("dead", 0, 100, hi_open=True, sample=(0, 60))
    t._energy_btu = v.real("e", sample=(-1e5, 4e6))
    return t


def at_shift_of(v, vol, cold, sto, m, dead, s):
    d = sto - cold
    a = v.mx(dead, v.mn(100.0, -s))
    b = v.mx(dead, v.mn(100.0, d / m - s))
    return RHO * vol / 100.0 * (m * (b - a) * ((b + a) / 2.0 + s) + d * (100.0 - b))


def at_shift(v, t, s):
    """Heat of the profile that reaches cold at height -s percent and rises at the slope, above the dead volume."""
    return at_shift_of(v, t.total_volume_gal, t._cold_temp_f, t._storage_temp_f, t.strat_slope, t._cold_pct, s)


def heat_at(v, t, s):
    """The same, as a name."""
    return v.term("heat_at", lambda *a: at_shift_of(v, *a), t.total_volume_gal, t._cold_temp_f, t._storage_temp_f,
                  t.strat_slope, t._cold_pct, s)


def held(v, t):
    return v.mx(0.0, v.mn(t._energy_btu, most(v, t)))


def most(v, t):
    return (1.0 - t._cold_pct / 100.0) * t.total_volume_gal * RHO * (t._storage_temp_f - t._cold_temp_f)


Contract("EnergyTank._energy_at_shift_pct",
         requires=lambda v, t, s: True,
         ensures=lambda v, old, r, t, s: [("heat of the profile", v.eq(r, at_shift(v, t, s)))],
         gives=lambda v, old, r, t, s: [("heat of the profile", v.eq(r, heat_at(v, t, s)))],
         setup=lambda v: (lambda t: (t._energy_at_shift_pct.__func__, (t, v.real("s", sample=(-120, 120)))))(any_etank(v)))


def etank(v):
    """An energy tank holding an arbitrary amount of heat."""
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    vol = v.real("vol", 20, 3000)
    cold = v.real("cold", 35, 75)
    sto = v.real("sto", 120, 180)
    slope = v.real("slope", 0.5, 6)
    t = v.call(EnergyTank, vol, cold, sto, slope)
    cap = vol * RHO * (sto - cold)
    x = v.real("fill", 0, 1.25) * cap
    v.call(t.add_energy_btu, x)
    return t, vol, cold, sto, slope, cap, v.mn(x, cap)


def content(v, t, vol, cold):
    """Heat above the cold water: the mean of the whole tank tells."""
    return vol * RHO * (v.call(t.get_average_draw_temp_f, vol) - cold)


def near(v, a, b, cap):
    return v.between(b - TOL * cap, a, b + TOL * cap)


@harness("T04", samples=600)
def heat_account(v):
    """Bounded: every operation changes the heat in the tank by what it adds or takes, between empty and full."""
    if v.symbolic:
        return
    t, vol, cold, sto, slope, cap, e = etank(v)
    v.check("heat put in is there", near(v, content(v, t, vol, cold), e, cap))
    for k in range(4):
        op = v.choice("op%d" % k, ["heat", "draw", "take", "recirc", "add"])
        a, b = v.real("a%d" % k, 0, 1), v.real("b%d" % k, 0, 1)
        if op == "heat":
            q, dt, out = 300.0 * a - 20.0, v.choice("dt", [1, 10, 60]), cold - 5.0 + 120.0 * b
            v.call(t.heat, q, dt, out)
            if q > 0 and out > cold:
                e = min(cap, e + q * 1000.0 * dt / 60.0)
        elif op == "draw":
            sup, gal = cold - 10.0 + 80.0 * b, 1.2 * vol * a * a
            v.call(t.draw, gal, cold, sup, sto)
            if sup > cold:
                e = max(0.0, e - gal * RHO * (sup - cold))
        elif op == "take":
            gal = 1.1 * vol * a * a
            inlet = cold + 40.0 * b
            m = v.call(t.get_average_draw_temp_f, gal)
            v.call(t.draw_physical_gal, gal, inlet, update_internal_cold_temp=False)
            if gal > 0:
                e = max(0.0, e - gal * RHO * max(0.0, m - inlet))
        elif op == "recirc":
            flow, ret, dt, sup = 10.0 * a, 80.0 + 40.0 * b, v.choice("dtr", [1, 10]), v.choice("sup", [120.0, None])
            v.call(t.add_recirc_return, flow, ret, dt, supply_temp_f=sup)
            e = max(0.0, e - flow * dt * RHO * ((sto if sup is None else sup) - ret))
        else:
            v.call(t.add_energy_btu, cap * (a - 0.3))
            e = min(cap, e + max(0.0, cap * (a - 0.3)))
        v.check("heat after " + op, near(v, content(v, t, vol, cold), min(e, cap), cap))
        profile(v, t, vol, cold, sto, slope)


def profile(v, t, vol, cold, sto, slope):
    """The profile rises at the tank's slope from cold to hot, and everything else follows from it."""
    f = [0.0, 0.07, 0.2, 0.33, 0.4, 0.5, 0.61, 0.8, 0.93, 1.0]
    ts = [v.call(t.get_temperature_at_fraction, x) for x in f]
    for (x, a), (y, b) in zip(zip(f, ts), list(zip(f, ts))[1:]):
        rise = slope * 100.0 * (y - x)
        v.check("rises no steeper than the slope", v.and_(v.le(a, b), v.le(b, a + rise + 1e-6)))
        if cold < a and b < sto:
            v.check("rises at the slope in between", v.eq(b - a, rise, tol=1e-6))
    v.check("between cold and hot", all(cold - 1e-9 <= a <= sto + 1e-9 for a in ts))
    sup = v.real("probe", 90, 119)
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    v.check("usable volume within the tank", 0.0 <= u <= vol)
    if 0 < u < vol:
        v.check("usable volume ends where the water is at supply temperature",
                v.eq(v.call(t.get_temperature_at_fraction, 1.0 - u / vol), sup, tol=1e-5))
    else:
        v.check("all or nothing usable", (ts[0] >= sup - 1e-6) if u >= vol else (ts[-1] <= sup + 1e-6))
    g = v.real("some", 0, 1, lo_open=True, sample=(0.01, 1)) * vol
    n = 400
    mean = sum(v.call(t.get_temperature_at_fraction, 1.0 - g / vol * (k + 0.5) / n) for k in range(n)) / n
    v.check("mean of a drawn volume is that of the profile", abs(v.call(t.get_average_draw_temp_f, g) - mean) < 0.05 + slope * 100.0 / n)


@harness("T04", samples=400)
def initial_fill(v):
    """Bounded: an initialised tank is hot down to the stated height (slug tank: at supply temperature there)."""
    if v.symbolic:
        return
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    vol, cold, sto, slope = v.real("vol", 20, 3000), v.real("cold", 35, 75), v.real("sto", 130, 180), v.real("slope", 0.5, 6)
    p = v.real("p", 0, 1)
    t = v.call(EnergyTank, vol, 50.0, 140.0, slope)
    v.call(t.initialize, sto, cold, p)
    for f in (0.0, 0.25, 0.5, 0.75, 1.0):
        v.check("profile of the stated fill", v.eq(v.call(t.get_temperature_at_fraction, f),
                                                   min(sto, max(cold, cold + slope * 100.0 * (f + p - 1.0))), tol=1e-3))
    sup, use = v.real("sup", 100, 125), v.choice("use", [1.0, 0.9, 0.75])
    s = v.call(SlugOverlayTank, vol, 50.0, 140.0, sup, use, slope)
    v.call(s.initialize, sto, cold, p)
    u = v.call(s.get_usable_volume_supplyT_gal, sup)
    full = min(use, 1.0 - (sup - cold) / slope / 100.0 + (sto - cold) / slope / 100.0)
    if 0 < p:
        v.check("usable volume as stated", v.eq(u, vol * min(p, full), tol=vol * 1e-4) if p <= 1.0 else True)
    else:
        v.check("nothing usable", u <= vol * 1e-4)
    v.check("no slug yet", v.call(s.is_slug_active) is False)


@harness("T04", samples=250)
def slug_life(v):
    """Bounded: while it heats, the slug holds the water below supply temperature: mixed, warmed by the heaters, grown by
    what is drawn from above it; afterwards the tank holds the heat of slug and hot water together."""
    if v.symbolic:
        return
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    vol, cold, sto, slope = v.real("vol", 50, 3000), v.real("cold", 35, 75), v.real("sto", 130, 180), v.real("slope", 0.5, 6)
    sup, use, p = v.real("sup", 100, 125), v.choice("use", [1.0, 0.9, 0.75]), v.real("p", 0, 1)

    def make():
        t = SlugOverlayTank(vol, cold, sto, sup, use, slope)
        t.initialize(sto, cold, p)
        return t
    t, before = make(), make()
    low, most = 1.0 - use, use * vol
    v.call(t.activate_slug, sup)
    v.check("slug active", v.call(t.is_slug_active) is True)
    size = most - before.get_usable_volume_supplyT_gal(sup)
    top = low + size / vol

    def mean0(a, b):
        if b - a < 1e-9:
            return cold
        n = 600
        return sum(before.get_temperature_at_fraction(a + (b - a) * (k + 0.5) / n) for k in range(n)) / n
    temp = mean0(low, top) if size > 1e-9 else cold
    v.check("slug is the mean of what it replaces", size <= vol * 1e-6 or abs(t.slug_temp_f - temp) < 0.05 + slope * (top - low) * 100.0 / 600)
    temp = t.slug_temp_f
    grown = 0.0
    for k in range(5):
        a = v.real("x%d" % k, 0, 1)
        if v.choice("op%d" % k, [0, 1]):
            q = 400.0 * a
            v.call(t.heat_slug, q, 1)
            if size > 0:
                temp = temp + q * 1000.0 / 60.0 / (size * RHO)
        else:
            gal, inlet = 0.3 * vol * a * a, cold + 30.0 * (1.0 - a)
            v.call(t.draw_physical_gal, gal, inlet, update_internal_cold_temp=False)
            over = max(0.0, gal - (most - size))
            kept = size - over
            if gal > 0:
                temp = (kept * temp + gal * inlet) / (kept + gal)
                grown = grown + gal if over == 0 else None if grown is None else grown + gal
                size = kept + gal
        if abs(size - most) < 1e-6 * vol:
            size = most
        v.check("slug temperature", v.eq(t.slug_temp_f, temp, tol=1e-6))
        v.check("usable while heating", v.eq(v.call(t.get_usable_volume_supplyT_gal, sup),
                                             most if temp >= sup else most - size, tol=1e-5 * vol)
                if abs(temp - sup) > 1e-6 else True)
        full = size >= most
        for f in (0.0, 0.2, 0.5, 0.8, 1.0):
            got = v.call(t.get_temperature_at_fraction, f)
            if abs(f - low) < 1e-6 or abs(f - low - size / vol) < 1e-6:
                continue
            if f < low:
                want = cold
            elif full or f < low + size / vol:
                want = max(cold, min(sto, temp))
            else:
                want = before.get_temperature_at_fraction(f - grown / vol)
            v.check("profile with slug", v.eq(got, want, tol=1e-4))
        if full:
            grown = None
            break
    if grown is not None and size < most:
        above = most - size
        heat = size * RHO * max(0.0, temp - cold) + above * RHO * (mean0(low + size / vol - grown / vol, 1.0 - grown / vol) - cold)
    else:
        heat = most * RHO * max(0.0, temp - cold)
    v.call(t.deactivate_slug)
    v.check("slug gone", v.call(t.is_slug_active) is False)
    cap = most * RHO * (sto - cold)
    # heat of the usable part: mean of the profile above the dead volume
    n = 600
    got = most * RHO * (sum(v.call(t.get_temperature_at_fraction, low + use * (k + 0.5) / n) for k in range(n)) / n - cold)
    v.check("heat of slug and hot water is kept", abs(got - min(heat, cap)) < cap * 0.004)


harness("T04", "heat_at_shift")(CONTRACTS["EnergyTank._energy_at_shift_pct"].body)


@harness("T04", timeout_ms=60000)
def shift_lemma(v):
    """The higher the profile, the more heat, by no more than the whole width of the tank could take."""
    t = any_etank(v)
    s, d = v.real("s", sample=(-120, 120)), v.real("d", 0, sample=(0, 20))
    a, b = at_shift(v, t, s), at_shift(v, t, s + d)
    v.check("rises", v.le(a, b))
    v.check("no faster than the tank's cross-section",
            v.le(b - a, RHO * t.total_volume_gal / 100.0 * (t._storage_temp_f - t._cold_temp_f) * d))


@harness("T04")
def shift_ends(v):
    """Shifted right down there is no heat, shifted right up the tank is full."""
    t = any_etank(v)
    v.check("no heat", v.eq(at_shift(v, t, -100.0), 0.0))
    v.check("full", v.eq(at_shift(v, t, (t._storage_temp_f - t._cold_temp_f) / t.strat_slope), most(v, t)))


def rises(v, t, s, d):
    """shift_lemma for shifts s and s + d, d >= 0"""
    a, b = heat_at(v, t, s), heat_at(v, t, s + d)
    k = RHO * t.total_volume_gal / 100.0 * (t._storage_temp_f - t._cold_temp_f)
    v.lemma(v.le(a, b), v.le(b - a, k * d))


def ends(v, t):
    v.lemma(v.eq(heat_at(v, t, -100.0), 0.0), v.eq(heat_at(v, t, (t._storage_temp_f - t._cold_temp_f) / t.strat_slope), most(v, t)))


def width(t):
    return 100.0 + (t._storage_temp_f - t._cold_temp_f) / t.strat_slope


def bracket(v, L, k, p):
    t, lo, hi, e = L["self"], L["lo"], L["hi"], L["E"]
    ends(v, t)
    if p == 2 ** 30:
        rises(v, t, lo, (hi - lo) / 2.0)
        rises(v, t, (lo + hi) / 2.0, (hi - lo) / 2.0)
    return [("the sought shift lies between", v.and_(v.le(heat_at(v, t, lo), e), v.le(e, heat_at(v, t, hi)))),
            ("within the tank", v.and_(v.le(-100.0, lo), v.le(lo, hi), v.le(hi, width(t) - 100.0))),
            ("halved each time", v.eq((hi - lo) * p, width(t)))]


def near_shift(v, t, s, e):
    """The heat at shift s is e but for the search's tolerance."""
    ends(v, t)
    eps = v.mx(1e-6 * v.mx(e, 1.0), RHO * t.total_volume_gal / 100.0 * (t._storage_temp_f - t._cold_temp_f) * width(t) / 2.0 ** 31)
    return v.between(e - eps, heat_at(v, t, s), e + eps)


Contract("EnergyTank._shift_pct_from_energy",
         requires=lambda v, t: v.and_(v.lt(t._cold_temp_f, t._storage_temp_f), v.lt(0.0, t.strat_slope),
                                      v.lt(0.0, t.total_volume_gal), v.le(0.0, t._cold_pct), v.lt(t._cold_pct, 100.0)),
         ensures=lambda v, old, r, t: [
             ("within the tank", v.between(-100.0, r, width(t) - 100.0)),
             ("the profile holds the heat", lambda: near_shift(v, t, r, held(v, t))),
             ("an empty tank is cold", v.implies(v.le(t._energy_btu, 0.0), v.eq(r, -100.0))),
             ("a full tank is hot", v.implies(v.le(most(v, t), t._energy_btu), v.eq(r, width(t) - 100.0)))],
         value=lambda v, t: v.term("shift_of", None, t.total_volume_gal, t._cold_temp_f, t._storage_temp_f, t.strat_slope,
                                   t._cold_pct, t._energy_btu),
         setup=lambda v: (lambda t: (t._shift_pct_from_energy.__func__, (t,)))(any_etank(v)))

def shift_of_heat(v):
    """The search for the shift finds it, to one part in a million."""
    CONTRACTS["EnergyTank._shift_pct_from_energy"].body(v)


harness("T04", uses=["EnergyTank._energy_at_shift_pct"], timeout_ms=30000,
        loops={"EnergyTank._shift_pct_from_energy": Loop(["lo", "hi"], bracket)})(shift_of_heat)


CONTRACTS["EnergyTank._shift_pct_from_energy"].only("shift within the tank", "within the tank")
SHIFT = ["EnergyTank._shift_pct_from_energy"]
RANGE = ["shift within the tank"]


def T(v, t, f):
    return v.call(t.get_temperature_at_fraction, f)


@harness("T04", uses=RANGE)
def energy_profile(v):
    """Cold at the bottom, rising at the slope, hot at the top."""
    t = any_etank(v, dead=False)
    cold, sto = t._cold_temp_f, t._storage_temp_f
    f, g = v.real("f", 0, 1), v.real("g", 0, 1)
    a, b = T(v, t, f), T(v, t, g)
    v.check("between cold and hot", v.between(cold, a, sto))
    v.check("warmer towards the top", v.implies(v.le(f, g), v.le(a, b)))
    v.check("rises at the slope in between", v.implies(
        v.and_(v.lt(cold, a), v.lt(a, sto), v.lt(cold, b), v.lt(b, sto)), v.eq(b - a, t.strat_slope * 100.0 * (g - f))))


@harness("T04", uses=RANGE)
def energy_usable(v):
    """Usable volume is exactly the volume at or above supply temperature."""
    t = any_etank(v, dead=False)
    sup = v.real("sup", 32, 212, sample=(100, 119))
    v.assume(v.and_(v.lt(t._cold_temp_f, sup), v.le(sup, t._storage_temp_f)))
    V = t.total_volume_gal
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    f = v.real("f", 0, 1)
    a = T(v, t, f)
    v.check("within the tank", v.between(0.0, u, V))
    v.check("everything counted is hot enough", v.implies(v.lt(V - u, f * V), v.le(sup, a)))
    v.check("everything not counted is too cold", v.implies(v.lt(f * V, V - u), v.lt(a, sup)))


@harness("T04", uses=RANGE, timeout_ms=60000)
def energy_mean(v):
    """The mean of a drawn volume is that of the profile (sandwich for every pair of volumes)."""
    from .t02_strat import sandwich, two_volumes
    t = any_etank(v, dead=False)
    a, b = two_volumes(v, t.total_volume_gal, 1000)
    sandwich(v, t, t.total_volume_gal, a, b)


def state(t):
    return (t.total_volume_gal, t._cold_temp_f, t._storage_temp_f, t.strat_slope, t._cold_pct)


@harness("T04", uses=SHIFT, timeout_ms=60000)
def energy_content(v):
    """The whole tank's mean temperature tells the heat that was put in."""
    t = any_etank(v, dead=False)
    e = held(v, t)
    got = t.total_volume_gal * RHO * (v.call(t.get_average_draw_temp_f, t.total_volume_gal) - t._cold_temp_f)
    if v.symbolic:
        s = v.call(t._shift_pct_from_energy)
        v.check("heat of the profile", v.eq(got, at_shift(v, t, s)))
    else:
        v.check("heat of the profile", near(v, got, e, most(v, t)))


def tolerance(v, t, e):
    return v.mx(1e-6 * v.mx(e, 1.0), RHO * t.total_volume_gal / 100.0 * (t._storage_temp_f - t._cold_temp_f) * width(t) / 2.0 ** 31)


def measured(v, t):
    """Heat above cold water, from the tank's mean temperature (symbolic: by energy_content)."""
    if v.symbolic:
        return heat_at(v, t, v.call(t._shift_pct_from_energy))
    return t.total_volume_gal * RHO * (v.call(t.get_average_draw_temp_f, t.total_volume_gal) - t._cold_temp_f)


def operation(v, op):
    """Every operation changes the heat in the tank by what it adds or takes, between empty and full."""
    t = any_etank(v, dead=False)
    cap = most(v, t)
    v.assume(v.between(0.0, t._energy_btu, cap))
    cold, sto = t._cold_temp_f, t._storage_temp_f
    before = measured(v, t)
    if op == "heat":
        q, dt, out = v.real("q", sample=(-20, 300)), v.real("dt", 0, sample=(0, 60)), v.real("out", 32, 250, sample=(40, 180))
        v.call(t.heat, q, dt, out)
        d = v.ite(v.and_(v.lt(0.0, q, exact=True), v.lt(cold, out, exact=True)), q * 1000.0 * dt / 60.0, 0.0)
    elif op == "add":
        q = v.real("q", sample=(-1e5, 4e6))
        v.call(t.add_energy_btu, q)
        d = v.mx(0.0, q)
    elif op == "draw":
        g, sup = v.real("g", sample=(-10, 3000)), v.real("sup", 32, 212, sample=(60, 140))
        v.call(t.draw, g, cold, sup, sto)
        d = v.ite(v.and_(v.lt(0.0, g, exact=True), v.lt(cold, sup, exact=True)), -g * RHO * (sup - cold), 0.0)
    elif op == "recirc":
        flow, ret, dt = v.real("flow", 0, sample=(0, 20)), v.real("ret", 32, 212, sample=(80, 125)), v.real("dt", 0, sample=(0, 60))
        sup = v.choice("sup", [None, 120.0])
        v.assume(v.le(ret, sto if sup is None else sup))
        v.call(t.add_recirc_return, flow, ret, dt, sup)
        d = -flow * dt * RHO * ((sto if sup is None else sup) - ret)
    else:
        g, inlet = v.real("g", sample=(-10, 3000)), v.real("inlet", 32, 212, sample=(35, 115))
        m = v.call(t.get_average_draw_temp_f, g)
        v.call(t.draw_physical_gal, g, inlet, None, False)
        d = v.ite(v.lt(0.0, g, exact=True), -g * RHO * v.mx(0.0, m - inlet), 0.0)
    after = measured(v, t)
    want = v.mx(0.0, v.mn(cap, before + d))
    eps = 2.0 * tolerance(v, t, cap)
    v.check("heat changes by what is added or taken", v.between(want - eps, after, want + eps))


for _op in ("heat", "add", "draw", "recirc", "take"):
    harness("T04", "energy_" + _op, uses=SHIFT, timeout_ms=40000)(lambda v, op=_op: operation(v, op))


# ------------------------------------------------------------------ slug
def any_slug_tank(v, use=None):
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    vol = v.real("vol", 0, lo_open=True, sample=(20, 3000))
    cold, sto = v.real("cold", 32, 211, sample=(35, 75)), v.real("sto", 32, 212, sample=(120, 180))
    sup = v.real("sup", 32, 212, sample=(100, 120))
    v.assume(v.and_(v.lt(cold, sup), v.le(sup, sto), v.lt(cold, sto)))
    slope = v.real("slope", 0, lo_open=True, sample=(0.5, 6))
    use = v.real("use", 0, 1, lo_open=True, sample=(0.5, 1)) if use is None else use
    t = v.call(SlugOverlayTank, vol, cold, sto, sup, use, slope)
    v.call(t.add_energy_btu, v.real("e", 0, sample=(0, 4e6)))
    return t, vol, cold, sto, sup, use


@harness("T04", uses=RANGE, timeout_ms=40000)
def slug_starts(v):
    """The slug takes the place of the water below supply temperature, and the rest stays as it was."""
    t, vol, cold, sto, sup, use = any_slug_tank(v)
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    f = v.real("f", 0, 1)
    before = T(v, t, f)
    v.call(t.activate_slug, sup)
    v.check("usable volume stays", v.implies(v.lt(t.slug_temp_f, sup), v.eq(v.call(t.get_usable_volume_supplyT_gal, sup), u)))
    top = 1.0 - u / vol
    after = T(v, t, f)
    v.check("profile above the slug stays", v.implies(v.lt(top, f), v.eq(after, before)))
    v.check("one temperature in the slug", v.implies(v.and_(v.lt(1.0 - use, f), v.lt(f, top)), v.eq(after, v.mx(cold, v.mn(sto, t.slug_temp_f)))))
    v.check("no warmer than supply", v.implies(v.lt(1.0 - use, top), v.between(cold, t.slug_temp_f, sup)))


def cumulated_of(v, cold, sto, m, s, x):
    d = sto - cold
    w = d / m
    p0, p1 = v.mx(0.0, v.mn(w, s)), v.mx(0.0, v.mn(w, x + s))
    return m * (p1 - p0) * (p1 + p0) / 2.0 + d * (v.mx(0.0, x + s - w) - v.mx(0.0, s - w))


def cumulated(v, t, x, s=None):
    """Integral of the profile's excess over cold from the bottom up to x percent, as a name."""
    s = v.call(t._shift_pct_from_energy) if s is None else s
    return v.term("cumulated", lambda *a: cumulated_of(v, *a), t._cold_temp_f, t._storage_temp_f, t.strat_slope, s, x)


Contract("EnergyTank._zone_average_temp_f",
         requires=lambda v, t, lo, hi: v.and_(v.le(0.0, lo), v.le(hi, 100.0), v.lt(t._cold_temp_f, t._storage_temp_f),
                                              v.lt(0.0, t.strat_slope)),
         ensures=lambda v, old, r, t, lo, hi: [
             ("mean of the profile", v.implies(v.lt(lo, hi), v.eq((hi - lo) * (r - t._cold_temp_f), unfolded(v, t, hi) - unfolded(v, t, lo)))),
             ("between cold and hot", v.between(t._cold_temp_f, r, t._storage_temp_f)),
             ("nothing to average", v.implies(v.le(hi, lo), v.eq(r, t._cold_temp_f)))],
         gives=lambda v, old, r, t, lo, hi: [
             ("mean of the profile", v.implies(v.lt(lo, hi), v.eq((hi - lo) * (r - t._cold_temp_f), cumulated(v, t, hi) - cumulated(v, t, lo)))),
             ("between cold and hot", v.between(t._cold_temp_f, r, t._storage_temp_f)),
             ("nothing to average", v.implies(v.le(hi, lo), v.eq(r, t._cold_temp_f)))],
         setup=lambda v: (lambda t: (t._zone_average_temp_f.__func__, (t, v.real("lo", 0, 100), v.real("hi", 0, 100))))(any_etank(v)))


def unfolded(v, t, x):
    return cumulated_of(v, t._cold_temp_f, t._storage_temp_f, t.strat_slope, v.call(t._shift_pct_from_energy), x)


@harness("T04", uses=RANGE, timeout_ms=60000)
def zone_mean(v):
    """The mean over a zone of the tank is that of the profile."""
    CONTRACTS["EnergyTank._zone_average_temp_f"].body(v)


@harness("T04", timeout_ms=60000)
def heat_is_integral(v):
    """The heat of a profile is its integral over the tank above the dead volume."""
    t = any_etank(v)
    s = v.real("s", -100, sample=(-100, 90))
    v.assume(v.le(s, width(t) - 100.0))
    K = RHO * t.total_volume_gal / 100.0
    c = lambda x: cumulated_of(v, t._cold_temp_f, t._storage_temp_f, t.strat_slope, s, x)
    v.check("heat of the profile", v.eq(at_shift(v, t, s), K * (c(100.0) - c(t._cold_pct))))


@harness("T04")
def profile_bounds_integral(v):
    """A zone's share of the integral lies between its ends' temperatures times its width."""
    t = any_etank(v)
    s, x, y = v.real("s", -100, sample=(-100, 90)), v.real("x", 0, 100), v.real("y", 0, 100)
    v.assume(v.le(x, y))
    c = lambda z: cumulated_of(v, t._cold_temp_f, t._storage_temp_f, t.strat_slope, s, z)
    p = lambda z: v.mx(0.0, v.mn(t._storage_temp_f - t._cold_temp_f, t.strat_slope * (z + s)))
    v.check("not less than at the bottom of the zone", v.le((y - x) * p(x), c(y) - c(x)))
    v.check("not more than at its top", v.le(c(y) - c(x), (y - x) * p(y)))


ZONE = RANGE + ["EnergyTank._zone_average_temp_f"]


def slug_account(v, ops):
    """From the start of a slug to its end the heat in the tank changes by what the heaters give and the draws take."""
    t, vol, cold, sto, sup, use = any_slug_tank(v)
    e0 = RHO * vol / 100.0 * (cumulated(v, t, 100.0) - cumulated(v, t, t._cold_pct))      # heat_is_integral
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    d = 0.0
    g = v.real("g", 0, sample=(0, 100)) if "draw" in ops else 0.0
    if "draw" in ops:
        v.assume(v.and_(v.le(g, u), v.lt(0.0, g)))
        m = v.call(t.get_average_draw_temp_f, g)
    v.call(t.activate_slug, sup)
    for op in ops:
        if op == "heat":
            q, dt = v.real("q", 0, sample=(0, 400)), v.real("dt", 0, sample=(0, 10))
            if ops[0] == "heat":
                v.assume(v.lt(u, use * vol))
            v.call(t.heat_slug, q, dt)
            d = d + q * dt * 1000.0 / 60.0
        elif op == "draw":
            inlet = v.real("inlet", 32, 212, sample=(35, 110))
            v.assume(v.le(cold, inlet))
            v.call(t.draw_physical_gal, g, inlet, None, False)
            d = d - g * RHO * (m - inlet)
    v.call(t.deactivate_slug)
    v.check("slug gone", v.call(t.is_slug_active) is False)
    v.check("heat kept", v.eq(t._energy_btu, e0 + d, tol=1e-4 * most(v, t) if not v.symbolic else None))


for _ops in ([],):
    harness("T04", "slug_" + ("_".join(_ops) or "idle"), uses=ZONE, timeout_ms=90000)(lambda v, ops=_ops: slug_account(v, ops))


def account(v, t):
    """Heat above cold of slug and water above it."""
    grown = (t._slug_vol_gal - t._original_slug_vol_gal) / t.total_volume_gal * 100.0
    K = RHO * t.total_volume_gal / 100.0
    return t._slug_vol_gal * RHO * (t._slug_temp_f - t._cold_temp_f) + \
        K * (cumulated(v, t, 100.0 - grown) - cumulated(v, t, t._slug_top_pct - grown))


def any_slug(v):
    t, vol, cold, sto, sup, use = any_slug_tank(v)
    full = use * vol
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    p = SlugOverlayTank(100.0, 50.0, 140.0, 120.0, 1.0)
    p.activate_slug(120.0)
    [getattr(p, k) for k in ("_slug_active", "_original_slug_vol_gal", "_slug_vol_gal", "_slug_temp_f", "_slug_top_pct")]   # else not applicable
    t._slug_active = True
    t._original_slug_vol_gal = v.real("first", 0, sample=(0, 50))
    t._slug_vol_gal = v.real("slug", 0, lo_open=True, sample=(0.1, 400))
    t._slug_temp_f = v.real("temp", 32, 400, sample=(35, 180))
    t._slug_top_pct = t._cold_pct + t._slug_vol_gal / vol * 100.0
    v.assume(v.and_(v.le(t._original_slug_vol_gal, t._slug_vol_gal), v.le(t._slug_vol_gal, full), v.le(cold, t._slug_temp_f)))
    return t, vol, cold, sto, sup, full


@harness("T04", uses=RANGE)
def slug_shown(v):
    """While a slug is heated the tank shows it at its one temperature and above it the old profile, moved up by as much as
    the slug has grown; usable is what lies above the slug, and the slug once it is at supply temperature."""
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    t, vol, cold, sto, sup, full = any_slug(v)
    f = v.real("f", 0, 1)
    grown = (t._slug_vol_gal - t._original_slug_vol_gal) / vol
    a = T(v, t, f)
    dead, top = 1.0 - full / vol, 1.0 - (full - t._slug_vol_gal) / vol
    v.check("dead volume is cold", v.implies(v.lt(f, dead), v.eq(a, cold)))
    v.check("slug at its temperature", v.implies(v.and_(v.lt(dead, f), v.lt(f, top)), v.eq(a, v.mn(sto, t._slug_temp_f))))
    old = v.call(EnergyTank.get_temperature_at_fraction, t, f - grown)
    v.check("old profile above", v.implies(v.lt(top, f), v.eq(a, old)))
    u = v.call(t.get_usable_volume_supplyT_gal, sup)
    v.check("usable volume", v.and_(v.implies(v.lt(t._slug_temp_f, sup), v.eq(u, full - t._slug_vol_gal)),
                                    v.implies(v.lt(sup, t._slug_temp_f), v.eq(u, full))))


@harness("T04", uses=ZONE, timeout_ms=40000)
def slug_mean(v):
    """The mean of a drawn volume is that of the profile shown."""
    t, vol, cold, sto, sup, full = any_slug(v)
    g = v.real("g", 0, lo_open=True, sample=(0.1, 300))
    v.assume(v.le(g, full))
    grown = (t._slug_vol_gal - t._original_slug_vol_gal) / vol * 100.0
    K = vol / 100.0
    above = full - t._slug_vol_gal
    low = v.mx(100.0 - g / vol * 100.0, t._slug_top_pct)
    want = K * (cumulated(v, t, 100.0 - grown) - cumulated(v, t, low - grown)) + v.mx(0.0, g - above) * (t._slug_temp_f - cold)
    v.check("mean of the top", v.eq(g * (v.call(t.get_average_draw_temp_f, g) - cold), want))


def slug_moves(v, op):
    """From any state of a slug: heating adds its heat; a draw takes water from the top, of the slug if need be, and adds the
    make-up water; at the end the tank holds the heat of slug and hot water together.  So for any sequence of them."""
    t, vol, cold, sto, sup, full = any_slug(v)
    if op == "end":
        e = account(v, t)
        v.call(t.deactivate_slug)
        v.check("no slug any more", v.call(t.is_slug_active) is False)
        v.check("the tank holds the heat of slug and hot water", v.eq(t._energy_btu, e, tol=None if v.symbolic else 1e-6 * most(v, t)))
        return
    if op == "again":
        before = v.snap(t)
        v.call(t.activate_slug, v.real("other", 32, 212, sample=(35, 180)))
        v.check("a slug that is there already stays as it is", v.same(before, v.snap(t)))
        return
    e, size, temp = account(v, t), t._slug_vol_gal, t._slug_temp_f
    grown = (size - t._original_slug_vol_gal) / vol * 100.0
    K = RHO * vol / 100.0
    top = t._slug_top_pct
    if op == "heat":
        q, dt = v.real("q", sample=(-10, 400)), v.real("dt", 0, sample=(0, 10))
        v.call(t.heat_slug, q, dt)
        v.check("size stays", v.eq(t._slug_vol_gal, size))
        want = e + v.mx(0.0, q) * dt * 1000.0 / 60.0
    else:
        g, inlet = v.real("g", 0, lo_open=True, sample=(0.1, 300)), v.real("inlet", 32, 212, sample=(35, 115))
        v.assume(v.le(cold, inlet))
        if op == "draw":
            v.assume(v.le(g, full - size))
            lost = K * (cumulated(v, t, 100.0 - grown) - cumulated(v, t, 100.0 - grown - g / vol * 100.0))
        else:
            v.assume(v.and_(v.lt(full - size, g), v.le(g, full)))
            lost = K * (cumulated(v, t, 100.0 - grown) - cumulated(v, t, top - grown)) + (g - (full - size)) * RHO * (temp - cold)
        v.call(t.draw_physical_gal, g, inlet, None, False)
        v.check("slug grows by the draw, up to the whole tank", v.eq(t._slug_vol_gal, v.mn(full, size + g)))
        want = e - lost + g * RHO * (inlet - cold)
    v.check("slug still there", v.call(t.is_slug_active) is True)
    v.check("top of the slug", v.eq(t._slug_top_pct, t._cold_pct + t._slug_vol_gal / vol * 100.0))
    v.check("heat account", v.eq(account(v, t), want, tol=None if v.symbolic else 1e-6 * most(v, t)))


for _op in ("heat", "draw", "overdraw", "end", "again"):
    harness("T04", "slug_any_" + _op, uses=ZONE, timeout_ms=60000)(lambda v, op=_op: slug_moves(v, op))
