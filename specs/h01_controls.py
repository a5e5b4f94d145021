"""H01: aquastat hysteresis and hourly control selection."""
from vengine.harness import harness, StandIn


class Probe(StandIn):
    """An arbitrary tank as the controls see it: one temperature per sensor height."""

    def __init__(self, temps):
        self.temps = temps

    def get_temperature_at_fraction(self, f):
        for h, t in self.temps:
            if f is h or f == h:
                return t
        raise ValueError("unexpected sensor")


def controls(v, tag):
    from ecoengine.objects.components.heating.Controls import Controls
    on_f = v.choice("onf" + tag, [0.0, 0.25, 1.0])
    off_f = v.choice("offf" + tag, [0.1, 0.75])
    on_t = v.real("on_t" + tag, 32, 212, sample=(95, 125))
    off_t = v.real("off_t" + tag, 32, 212, sample=(95, 160))
    out_t = v.real("out_t" + tag, 32, 212, sample=(100, 180))
    return Controls, on_f, on_t, off_f, off_t, out_t


@harness("H01")
def triggers(v):
    """On below the on-trigger at the on-sensor, off at or above the off-trigger at the off-sensor."""
    C, on_f, on_t, off_f, off_t, out_t = controls(v, "")
    c = v.call(C, on_f, on_t, off_f, off_t, out_t)
    t_on = v.real("T_on", sample=(60, 180))
    t_off = v.real("T_off", sample=(60, 180))
    tank = Probe([(on_f, t_on), (off_f, t_off)])
    v.check("turns on exactly below the trigger",
            v.iff(v.call(c.should_turn_on, tank), v.lt(t_on, on_t, exact=True)))
    v.check("turns off exactly at or above the trigger",
            v.iff(v.call(c.should_turn_off, tank), v.le(off_t, t_off, exact=True)))


@harness("H01")
def hysteresis(v):
    """A running heater stops only on the off-trigger, an idle one starts only on the on-trigger."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    C, on_f, on_t, off_f, off_t, out_t = controls(v, "")
    c = v.call(C, on_f, on_t, off_f, off_t, out_t)
    hour = v.int_("hour", 0, 23)
    w = v.call(WaterHeater.from_nominal_capacity, 100.0, ["normal"] * 24, {"normal": c})
    v.check("starts idle", v.not_(v.call(w.is_active)))
    was = v.boolean("was")
    if was:
        v.call(w.turn_on)
    else:
        v.call(w.turn_off)
    v.check("switched", v.iff(v.call(w.is_active), was))
    t_on = v.real("T_on", sample=(60, 180))
    t_off = v.real("T_off", sample=(60, 180))
    v.call(w.update_state, Probe([(on_f, t_on), (off_f, t_off)]), hour)
    now = v.call(w.is_active)
    v.check("running heater", v.implies(was, v.iff(now, v.lt(t_off, off_t, exact=True))))
    v.check("idle heater", v.implies(v.not_(was), v.iff(now, v.lt(t_on, on_t, exact=True))))
    v.check("outlet temperature of the hour", v.eq(v.call(w.get_outlet_temp_f, hour), out_t))


@harness("H01")
def schedule(v):
    """Every hour is governed by the controls its schedule entry names, and by no others."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.heating.Controls import Controls
    names = ["normal", "loadUp", "shed"]
    cm, temps = {}, {}
    for k, n in enumerate(names):
        on_t = v.real("on_" + n, 32, 212, sample=(95, 125))
        off_t = v.real("off_" + n, 32, 212, sample=(95, 160))
        out_t = v.real("out_" + n, 32, 212, sample=(100, 180))
        cm[n] = v.call(Controls, 0.25 + k / 8, on_t, 0.1 + k / 8, off_t, out_t)
        temps[n] = (on_t, off_t, out_t)
    shed0 = v.int_("shed0", 1, 22)
    lu = v.int_("lu", 0, 5)
    base = 16
    hours = ["shed" if 16 <= h < 20 else ("loadUp" if 13 <= h < 16 else "normal") for h in range(24)]
    rot = v.choice("rot", list(range(0, 24, 3)))
    hours = hours[rot:] + hours[:rot]
    w = v.call(WaterHeater.from_nominal_capacity, 100.0, hours, cm)
    for hour in range(24):
        n = hours[hour]
        c = v.call(w.get_controls_for_hour, hour)
        v.check("controls of the hour", c is cm[n])
        v.check("outlet of the hour", v.eq(v.call(w.get_outlet_temp_f, hour), temps[n][2]))
    v.check("load shifting reported", v.call(w.is_load_shifting))
    w2 = v.call(WaterHeater.from_nominal_capacity, 100.0, ["normal"] * 24, {"normal": cm["normal"]})
    v.check("no load shifting reported", v.not_(v.call(w2.is_load_shifting)))
    hour = v.choice("hour", [0, 7, 23])
    n = hours[hour]
    k = names.index(n)
    t_on = v.real("T_on", sample=(60, 180))
    t_off = v.real("T_off", sample=(60, 180))
    v.call(w.update_state, Probe([(0.25 + k / 8, t_on), (0.1 + k / 8, t_off)]), hour)
    v.check("idle heater follows its hour", v.iff(v.call(w.is_active), v.lt(t_on, temps[n][0], exact=True)))


@harness("H01")
def unconfigured(v):
    """A heater without controls for the hour refuses to run and keeps its state."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.heating.Controls import Controls
    c = v.call(Controls, 0.5, 110.0, 0.5, 120.0, 150.0)
    sched, cmap = v.choice("case", [(None, {"normal": c}), (["normal"] * 24, None), (["shed"] * 24, {"normal": c}),
                                    (None, None)])
    w = v.call(WaterHeater.from_nominal_capacity, 100.0, sched, cmap)
    hour = v.int_("hour", 0, 23)
    was = v.boolean("was")
    if was:
        v.call(w.turn_on)
    tank = Probe([(0.5, v.real("T", sample=(60, 180)))])
    v.check("no controls", v.call(w.get_controls_for_hour, hour) is None)
    v.check("update refused", v.outcome(w.update_state, tank, hour).raised is ValueError)
    v.check("outlet refused", v.outcome(w.get_outlet_temp_f, hour).raised is ValueError)
    v.check("state unchanged", v.iff(v.call(w.is_active), was))
