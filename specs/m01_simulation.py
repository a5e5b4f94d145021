"""M01 the record of a simulation; M02 outages and early stop; M03 one step of each plant."""
from vengine.harness import harness, StandIn
from . import RHO, KBTUH_PER_KW
from .s01_sizing import controls
from .r01_recirc import flat_building

KEYS = [("dhw_demand_supplyT_gal", "demand_supplyT_gal"), ("usable_volume_supplyT_gal", "usable_volume_supplyT_gal"),
        ("heater_output_kbtuh", "heater_output_kbtuh"), ("heater_power_in_kw", "heater_power_in_kw"), ("oat_f", "oat_f"),
        ("inlet_water_temp_f", "inlet_water_temp_f")]
TM_KEYS = [("tm_tank_temp_f", "tm_tank_temp_f"), ("tm_heater_output_kbtuh", "tm_heater_output_kbtuh"),
           ("tm_heater_input_kw", "tm_heater_input_kw")]


class Tank(StandIn):
    """A tank of which only the preparation matters."""

    def __init__(self, volume):
        self.total_volume_gal = volume
        self.started = []

    def initialize(self, storage_temp_f, cold_temp_f, percent_useable):
        self.started.append((storage_temp_f, cold_temp_f, percent_useable))


class Script(StandIn):
    """An arbitrary plant as the simulator sees it: a step report for every step."""
    absent = ("tm_storage_tank", "tm_off_temp_f")

    def __init__(self, step, supply, storage, heaters, tank=None):
        self.supply_temp_f = supply
        self.storage_temp_f = storage
        self.water_heaters = heaters
        self.storage_tank = tank
        self.step = step
        self.calls = []

    def simulate_step(self, building, timestep_interval, interval_min=1, mode="normal"):
        self.calls.append((building, timestep_interval, interval_min))
        return self.step(timestep_interval)


class LoopScript(Script):
    def __init__(self, step, supply, storage, heaters, tank, tm_tank, tm_off):
        super().__init__(step, supply, storage, heaters, tank)
        self.tm_storage_tank = tm_tank
        if tm_off is not None:
            self.tm_off_temp_f = tm_off


def report(v, i, usable=100.0, top=140.0, tm=False, deliver=None, mode=None, kw=2.0):
    d = {"demand_supplyT_gal": 1.0 + i, "usable_volume_supplyT_gal": usable, "heater_output_kbtuh": 3.0 + i % 7,
         "heater_power_in_kw": kw, "oat_f": 40.0 + i % 5, "inlet_water_temp_f": 50.0 + i % 3,
         "tank_temps_f": [61.0 + i % 2, 71.0, 81.0, 91.0, 101.0, top]}
    if mode is not None:
        d["mode"] = mode
    if deliver is not None:
        d["delivery_temp_f"] = deliver
    if tm:
        d["tm_tank_temp_f"] = 121.0 + i % 4
        d["tm_heater_output_kbtuh"] = 5.0 + i % 6
        d["tm_heater_input_kw"] = None if i % 3 == 1 else 1.0 + i % 6
    return d


# ------------------------------------------------------------------ M01
def check_record(v, run, steps, tm):
    n = len(steps)
    cols = [getattr(run, a) for a, _ in KEYS] + [run.heater_mode] + list(run.tank_temps_f)
    v.check("one entry per step in every record", all(len(c) == n for c in cols) and len(run.tank_temps_f) == 6)
    for a, k in KEYS:
        v.check("record " + a, v.same(list(getattr(run, a)), [s[k] for s in steps]))
    v.check("record of modes", list(run.heater_mode) == [s.get("mode", "normal") for s in steps])
    for j in range(6):
        v.check("record of tank temperatures", v.same(list(run.tank_temps_f[j]), [s["tank_temps_f"][j] for s in steps]))
    if tm:
        for a, k in TM_KEYS:
            got = list(getattr(run, a))
            v.check("one entry per step in the loop records", len(got) == n)
            v.check("record " + a, all(v.same(x, s[k]) if s[k] is not None else not x for x, s in zip(got, steps)))
    else:
        for a, k in TM_KEYS:
            v.check("no loop record without a loop", len(getattr(run, a)) == 0)


@harness("M01")
def recorded_steps(v):
    """Every step of a run is recorded in full, in order, aligned across all records."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    tm = v.choice("tm", [False, True])
    run = v.call(SimulationRun, 4320, 1)
    steps = []
    power = v.choice("power", [(True, True, True), (True, False, True), (False, True, True), (False, False, False)])
    for i in range(3):
        x = lambda k: v.real("%s%d" % (k, i))
        s = {"demand_supplyT_gal": x("demand"), "usable_volume_supplyT_gal": x("usable"), "heater_output_kbtuh": x("out"),
             "heater_power_in_kw": x("kw") if power[i] else None, "oat_f": x("oat"),
             "inlet_water_temp_f": x("inlet"), "tank_temps_f": [x("t%d_" % j) for j in range(6)],
             "mode": ["normal", "shed", "loadUp"][i]}
        if tm:
            s.update(tm_tank_temp_f=x("tmt"), tm_heater_output_kbtuh=x("tmo"),
                     tm_heater_input_kw=x("tmk") if power[2 - i] else None)
        steps.append(s)
        v.call(run.record_timestep, dhw_demand_supplyT_gal=s["demand_supplyT_gal"],
               **{k: y for k, y in s.items() if k != "demand_supplyT_gal"})
    check_record(v, run, steps, tm)
    hours = v.num(1.0) / 60
    tot = lambda k: v.sum_([s.get(k) if s.get(k) is not None else 0.0 for s in steps])
    v.check("total energy", v.eq(v.call(run.get_total_energy_kwh),
                                 (tot("heater_power_in_kw") + tot("tm_heater_input_kw")) * hours))


@harness("M01")
def number_of_steps(v):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    k = v.int_("k", 1, 600000)
    t = v.choice("t", [1, 10, 60])
    run = v.call(SimulationRun, k * t, t)
    v.check("steps of a run", v.eq(run.num_steps, k))


def simulated(v, tm, duration):
    """The simulator asks the plant for every step of the period in order, from a freshly prepared tank, and records
    what the plant reports."""
    from ecoengine.interfaces import Simulator
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    n, dt = {"3day": (4320, 1), "annual": (52560, 10)}[duration]
    full, kw = n, {}
    if v.symbolic:      # a run that the deficit rule ends after five steps; whole runs are checked concretely
        n, kw = 5, {"outlet_deficit_max_min": 0}
    at = v.int_("at", 0, n - 1) if not v.symbolic else v.choice("at", [0, 2, 4])
    x, k = v.real("x", 0, 1e6, lo_open=True), v.real("kw", 0, 100)
    rep = lambda i: report(v, i, usable=x if i == at else 10.0, top=30.0 if v.symbolic and i == n - 1 else 140.0, tm=tm, kw=k if i == at else (None if i % 2 else 2.0),
                           mode=["shed", "normal", "loadUp"][i // 60 % 3])
    on = v.real("on", -0.5, 1.5)
    how = v.choice("heaters", ["normal", "other", "none"])
    m = {"none": None, "normal": {"loadUp": controls(v, 0.9, 110.0, 0.0, 140.0, 140.0),
                                  "normal": controls(v, on, 110.0, 0.0, 140.0, 140.0)},
         "other": {"day": controls(v, on, 110.0, 0.0, 140.0, 140.0)}}[how]
    w = v.call(WaterHeater.from_nominal_capacity, 10.0, ["normal"] * 24, m)
    tank, loop = Tank(100.0), Tank(40.0)
    sto = v.real("sto", 120, 180)
    inlet = v.choice("inlet", [None, 44.0])
    off = v.choice("tm_off", [None, 133.0])
    s = LoopScript(rep, 120.0, sto, [w], tank, loop, off) if tm else Script(rep, 120.0, sto, [w], tank)
    b = flat_building(v, inlet=inlet, oat=30.0 if inlet else None)
    run = v.call(Simulator.simulate, s, b, duration, **kw)
    v.check("every step asked for once, in order", [c[1] for c in s.calls] == list(range(n)))
    v.check("with the building and the interval", all(c[0] is b and c[2] == dt for c in s.calls))
    v.check("tank prepared once", len(tank.started) == 1)
    hot = v.mx(0.0, v.mn(1.0, 1.0 - on)) if how != "none" else 1.0
    v.check("tank starts charged down to the normal on-sensor", v.and_(
        v.eq(tank.started[0][0], sto), v.eq(tank.started[0][1], 44.0 if inlet else 50.0), v.eq(tank.started[0][2], hot)))
    if tm:
        v.check("loop tank starts hot", len(loop.started) == 1 and v.and_(
            v.eq(loop.started[0][0], 133.0 if off else sto), v.eq(loop.started[0][2], 1.0)))
    check_record(v, run, [rep(i) for i in range(n)], tm)
    v.check("period and interval of the run", run.timestep_min == dt and run.duration_min == full * dt)
    v.check("supply temperature of the run", v.eq(run.supply_temp_f, 120.0))
    v.check("not stopped", run.stopped_early == v.symbolic and run.outage_minutes == 0)


for _tm in (False, True):
    harness("M01", "simulated_3day" + ("_loop" if _tm else ""), samples=30, wall=250, max_paths=2000000)(
        lambda v, t=_tm: simulated(v, t, "3day"))
    harness("M01", "simulated_annual" + ("_loop" if _tm else ""), samples=2, wall=250, max_paths=2000000)(
        lambda v, t=_tm: simulated(v, t, "annual"))


@harness("M01")
def unknown_period(v):
    from ecoengine.interfaces import Simulator
    s = Script(lambda i: report(v, i), 120.0, 150.0, [])
    b = flat_building(v)
    v.check("other periods are refused", v.outcome(
        Simulator.simulate, s, b, v.choice("p", ["week", "3 day", "", "Annual"])).raised is ValueError)
    v.check("nothing simulated", len(s.calls) == 0)


@harness("M01", samples=40)
def csv_export(v):
    """Bounded: the exported table holds the record, one row per step."""
    if v.symbolic:
        return
    import csv, os, tempfile
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    n = v.int_("n", 0, 40)
    t = v.choice("t", [1, 10])
    run = v.call(SimulationRun, 4320, t)
    steps = []
    for i in range(n):
        s = report(v, i, usable=v.real("u%d" % i, 0, 1000), kw=None if i % 3 == 0 else v.real("k%d" % i, 0, 50))
        steps.append(s)
        v.call(run.record_timestep, dhw_demand_supplyT_gal=s["demand_supplyT_gal"],
               **{k: y for k, y in s.items() if k != "demand_supplyT_gal"})
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "run.csv")
        v.call(run.to_csv, p)
        rows = list(csv.reader(open(p, newline="")))
    head, rows = rows[0], rows[1:]
    v.check("one row per step", len(rows) == n)
    want = ["timestep", "time_min"] + [a for a, _ in KEYS] + ["tank_temp_%dpct" % p for p in (0, 20, 40, 60, 80, 100)]
    v.check("columns", head == want)
    for i, r in enumerate(rows):
        s = steps[i]
        vals = [i, i * t] + [s[k] for _, k in KEYS] + s["tank_temps_f"]
        v.check("row", all((c == "" and x is None) or (c != "" and float(c) == float(x)) for c, x in zip(r, vals))
                and len(r) == len(vals))


# ------------------------------------------------------------------ M02
@harness("M02", max_paths=20000)
def deficit_rule(v):
    """The run stops at the first step at which delivery has been more than the threshold below supply temperature
    for longer than the permitted time without a break."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    t = v.choice("t", [1, 10])
    gap = v.real("gap", 0, 40)
    cap = v.real("cap", 0, 35, sample=(0, 35))
    sup = v.real("sup", 90, 140)
    run = v.call(SimulationRun, 4320, t, gap, cap)
    v.check("not stopped at the start", not run.stopped_early)
    cold = 0.0
    stopped = False
    for i in range(4):
        x = v.real("x%d" % i, 40, 160)
        r = v.call(run.check_outlet_deficit, x, sup)
        low = v.lt(x, sup - gap, exact=True)
        cold = v.ite(low, cold + t, 0.0)
        stop = v.and_(low, v.lt(cap, cold, exact=True))
        v.check("stops after too long below the threshold", v.iff(r, stop))
        stopped = v.or_(stopped, stop)
        v.check("and says so", v.iff(run.stopped_early, stopped))


@harness("M02")
def outage_account(v):
    """Outage minutes are the sum of what was recorded; a run is successful up to the permitted outage."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    run = v.call(SimulationRun, 4320, 1)
    tot = 0
    v.check("no outage at first", v.call(run.is_successful))
    for i in range(3):
        k = v.int_("k%d" % i, 0, 100)
        v.call(run.record_outage, k)
        tot = tot + k
    cap = v.int_("cap", 0, 400)
    v.check("total", v.eq(run.outage_minutes, tot))
    v.check("successful exactly within the permitted outage", v.iff(v.call(run.is_successful, cap), v.le(tot, cap, exact=True)))
    s = v.call(run.get_summary)
    v.check("summary", v.and_(v.eq(s["total_outage_min"], tot), v.iff(s["successful"], v.le(tot, 0, exact=True)),
                              v.eq(s["total_energy_kwh"], 0), v.eq(s["peak_demand_kw"], 0),
                              v.eq(s["num_steps_recorded"], 0), v.not_(s["stopped_early"])))


def simulated_outage(v, duration):
    """Minutes without usable hot water are counted; the simulation ends with the step that exceeds the permitted
    deficit and records that step."""
    from ecoengine.interfaces import Simulator
    n, dt = {"3day": (4320, 1), "annual": (52560, 10)}[duration]
    deliver = v.choice("deliver", [False, True])
    if v.symbolic:
        # the run ends within eight steps; whole runs are checked concretely
        start = 0
        temps = {j: v.real("d%d" % j, 60, 160) if j < 4 else 20.0 for j in range(8)}
        dry = {j: v.real("u%d" % j, -10, 10) for j in (0, 3)}
        cap = v.choice("cap", [0, 1, 2])
    else:
        start = v.int_("start", 0, n - 1)
        temps = {start + j: v.real("d%d" % j, 60, 160) for j in range(30)}
        dry = {start + j: v.real("u%d" % j, -10, 10) for j in range(0, 30, 2)}
        cap = v.int_("cap", 0, 25)
    gap = v.choice("gap", [5.0, 0.0, 12.5])

    def rep(i):
        t = temps.get(i, 140.0)
        return report(v, i, usable=dry.get(i, 55.0), top=t if not deliver else 20.0, deliver=t if deliver else None)
    s = Script(rep, 120.0, 150.0, [])
    run = v.call(Simulator.simulate, s, flat_building(v), duration, outlet_deficit_threshold_f=gap,
                 outlet_deficit_max_min=cap)
    m = len(s.calls)
    v.check("recorded what was simulated", len(run.dhw_demand_supplyT_gal) == m)
    cold, out = 0.0, 0
    last = min(n, max(temps) + 1)
    stopped = False
    for i in range(max(0, start), min(last, m)):
        low = v.lt(temps[i], 120.0 - gap, exact=True)
        cold = v.ite(low, cold + dt, 0.0)
        stop = v.and_(low, v.lt(cap, cold, exact=True))
        if i < m - 1:
            v.check("goes on while the deficit is permitted", v.not_(stop))
        stopped = stop
        if i in dry:
            out = out + v.ite(v.le(dry[i], 0, exact=True), dt, 0)
    v.check("ends early only after too long a deficit", v.or_(m == n, stopped) if m <= last else m == n)
    v.check("says whether it stopped early", v.iff(run.stopped_early, stopped) if m <= last else not run.stopped_early)
    v.check("outage minutes", v.eq(run.outage_minutes, out))


harness("M02", "simulated_outage", samples=60, wall=250, max_paths=2000000)(lambda v: simulated_outage(v, "3day"))
harness("M02", "simulated_outage_annual", samples=4)(lambda v: None if v.symbolic else simulated_outage(v, "annual"))
