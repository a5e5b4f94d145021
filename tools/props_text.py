P("B01", "Hot water demand follows the load shape and conserves the daily use",
  "For every interval of every length, the demand reported for it equals the daily hot water use times the share of the hour it starts in, pro rata to its length, with the shape repeating every 24 hours (every 8760 hours for annual shapes). When the length divides an hour, the intervals of a day therefore add up to the daily use times the sum of that day's shape. Switching a building to its annual shape and back leaves its daily use and standard shape as they were.",
  ["inputs", "configurations"], "All daily uses, load shapes, interval indices and interval lengths, whether or not they divide an hour; every building type.",
  "The tests look at a few intervals of stock buildings; the law concerns every interval index, length and shape.",
  [B + "Building.py"], ["Building.get_draw_gal", "Building daily/annual shape switching", "the hour-of-day index"],
  "Interval index, interval length, shape and daily use are symbolic.")
P("B02", "Building types and custom shapes give their stated use, bad input refused",
  "A named building type uses its published gallons per unit times its magnitude with shares that add up to one, multi-family use is gallons per person times people unless a named standard overrides it, and a multi-use building uses, hour by hour, the sum of the gallons of its parts. A custom building takes its use and shape from its 24 hourly values or stated daily use. Unknown types, non-positive magnitudes, unknown standards, lists of different lengths and shapes that are not 24 non-negative shares adding to one are refused before any building is returned.",
  ["inputs", "configurations"], "All magnitudes, gallons per person, apartment mixes, custom shapes and combinations of building types.",
  "Tests build a handful of buildings with fixed magnitudes and a few invalid inputs.",
  [B + "Building.py"], ["Building factories", "MultiUse combination", "load shape validation"],
  "Magnitudes, shapes and mixes symbolic; building types enumerated from the data files; parts of multi-use buildings up to three.")
P("B03", "Every interval sees the weather of its own hour, month and place",
  "For every interval index and length, the outdoor temperature is that of the hour of the year the interval falls in and the inlet water temperature that of its calendar month, the year repeating. The design conditions are the coldest hour and coldest month of the same data, or the stated constants, and each day of the year falls in exactly one five-degree temperature bucket, the one that contains its mean. A zip code, weather station or zone number resolves to the place listed for it in the published data, and unknown ones are refused.",
  ["inputs", "configurations"], "All interval indices and lengths, all temperature series, every published zone, station and zip code.",
  "Tests sample some zones and hours; month and year boundaries and all of the zones are not covered.",
  [B + "ClimateZone.py", I + "EcosizerEngine.py"], ["ClimateZone temperature lookups", "design conditions", "oat buckets", "zip and station lookup"],
  "Temperature series symbolic; the published tables are enumerated completely natively (bounded by the data).")
P("T01", "The mixed tank conserves energy and volume in every operation",
  "For every tank state, adding heat, losing heat, drawing water, taking in hot primary water or exchanging recirculation water changes the energy stored in the tank by exactly the energy those flows carry, and the tank stays uniform in temperature and constant in volume. A draw stated at supply temperature removes exactly its heat content above the cold water. The whole tank counts as usable exactly when it is at or above supply temperature.",
  ["inputs", "histories"], "All volumes, temperatures, flows and durations; any sequence of operations, since each is proved from an arbitrary state.",
  "Tests check a few numbers per operation; the balance has to hold from every reachable state.",
  [C + "storage/MixedStorageTank.py"], ["draw, heat, recirculation and inflow operations of the mixed tank"],
  "All operations from an arbitrary initial state.")
P("T02", "The stratified profile gives usable volume and draw temperature consistently",
  "For every state of a stratified tank the temperature rises monotonically from the cold make-up temperature at the bottom to the storage temperature at the top, changing linearly within the transition zone. The usable volume is exactly the volume at or above supply temperature, and the average temperature of a drawn volume is the mean of the profile over that volume. After initialisation the usable height is the requested one.",
  ["inputs", "histories"], "All volumes, temperatures, slopes and positions of the transition zone, and all drawn volumes.",
  "Tests sample a few positions; mistakes at zone boundaries need specific positions.",
  [C + "storage/StratifiedTank.py"], ["temperature profile", "usable volume", "average draw temperature"],
  "The average temperature is characterised by a sandwich over every pair of volumes.")
P("T03", "Stratified tank operations move the profile by exactly the volume involved",
  "Drawing a physical volume moves the temperature profile up by exactly that volume and heating moves it down by the volume the heat can raise to storage temperature, so that the usable volume changes by exactly that volume between empty and full. Heat beyond a fully hot tank is not banked and draws beyond an empty tank do not go negative. A draw stated at supply temperature takes from the top the volume whose heat above the make-up water equals that of the requested draw.",
  ["inputs", "histories"], "All tank states, volumes, heat rates and durations; any sequence of operations.",
  "Tests exercise single operations at chosen states; saturation at both ends and sequences are open.",
  [C + "storage/StratifiedTank.py"], ["draw, heat and recirculation operations of the stratified tank"],
  "Each operation proved from an arbitrary state.")
P("T04", "The tank of multi-pass plants keeps its heat account",
  "For every state of the energy tank the profile shown holds exactly the heat that was put in, rising at the tank's slope from cold to hot, and heating, draws and loop returns change that heat by exactly what they add or take, between empty and full. A slug started in the tank takes the place of exactly the water below supply temperature and leaves the profile above as it was. From the start of a slug to its end the heat of the tank changes by exactly what heaters give to the slug and draws take from above it.",
  ["inputs", "histories"], "All tank sizes, temperatures, slopes, heat contents, dead volumes, draws and heat rates.",
  "Tests check a few contents and operations; the profile is found by a search that has to succeed for every content.",
  [C + "storage/EnergyTank.py", C + "storage/SlugOverlayTank.py"], ["heat to profile search", "tank operations", "slug start, heating, draws and end"],
  "The search is proved by a loop invariant, to one part in a million of the heat; callers use its contract. Slug operations are proved from any slug state, so for any sequence; initialisation is sampled (bounded).")
P("H01", "Controls switch the heater exactly as the schedule and triggers say",
  "In every hour the heater is governed by the controls its schedule names for that hour and by no others, the schedule repeating daily. An idle heater starts exactly when the water at the on-sensor is below the on-trigger, and a running heater stops exactly when the water at the off-sensor has reached the off-trigger; otherwise it keeps its state. A heater without controls for the hour is refused and keeps its state.",
  ["inputs", "histories", "schedules"], "All tank temperature profiles, sensor positions, triggers, schedules and previous states.",
  "Tests drive a few transitions; hysteresis is a property of every history of temperatures.",
  [C + "heating/Controls.py", C + "heating/WaterHeater.py"], ["trigger evaluation", "schedule lookup", "state transition"],
  "Proved for an arbitrary temperature profile (uninterpreted tank).")
P("H02", "Heater output and power follow the performance data in every condition",
  "A nominal heater delivers its capacity whenever it is on and nothing when off; with a performance map the delivered heat and drawn power are those of the map for the outdoor, inlet and outlet temperature, scaled by the number of units. Between the points of a multi-point map power and efficiency are interpolated linearly, and below the coldest mapped condition resistance heat covers the nominal capacity one for one. The coefficient of performance is output over input.",
  ["inputs", "configurations"], "All operating conditions, unit counts and map points; every model of the catalogue.",
  "Tests evaluate some models at a few temperatures; the corners of the maps are not covered.",
  [C + "heating/WaterHeater.py", C + "heating/PerformanceMap.py"], ["performance map lookup, interpolation and fallback", "power accounting"],
  "Interpolation over tabulated data uses the real table natively; the catalogue is a bounded grid.")
P("U01", "Every hour is charged the rate of its season and time-of-day window",
  "For every hour of the year and every interval length, the energy and demand rates charged are those of the month's season and of the window the hour lies in: peak, then discount, then off-peak, a peak window taking precedence over a discount window. A tariff given hour by hour charges each interval the rate of its own hour. Demand periods are labelled so that every month and window has its own.",
  ["inputs", "configurations"], "All 8760 hours, all window and season layouts, all rates and interval lengths.",
  "Tests look up some hours of a few tariffs.",
  [B + "UtilityCostTracker.py"], ["tariff expansion to hours", "rate lookup by interval"],
  "Rates and hours symbolic for listed window layouts; arbitrary layouts sampled (bounded).")
P("U02", "Only well-formed tariffs are accepted",
  "A tariff is accepted exactly when the base charge is a number, every peak window starts at an hour from 0 to 23 and ends no earlier than it starts and no later than midnight (an empty window is allowed), the seasons partition the twelve months in order, and every list of peak and off-peak hours and rates has one number per season. Anything else is refused with an error before a tariff exists.",
  ["inputs"], "All window hours, season boundaries and list lengths.",
  "Tests try a handful of invalid combinations.",
  [B + "UtilityCostTracker.py"], ["tariff validation"],
  "Window hours and months symbolic; list lengths enumerated.")
P("U03", "Cost and energy totals add up over months, periods and the year",
  "The annual cost of a simulated run is the energy used in each interval at that interval's rate, plus for each demand period the highest power drawn in it times its rate, plus twelve base charges, with the temperature maintenance heater counted together with the primary one. The monthly and the peak/off-peak breakdowns split the same total by calendar month without losing or moving any of it, and the monthly energy adds up to the total energy.",
  ["inputs", "histories"], "All power histories with and without a temperature maintenance heater, all rates.",
  "Tests use constant or single-interval histories, mostly without temperature maintenance.",
  [S + "SimulationRun.py", B + "UtilityCostTracker.py"], ["annual cost", "monthly breakdowns", "monthly energy", "peak demand"],
  "Powers and rates symbolic for recorded histories of selected lengths and positions.")
P("U04", "A tariff survives being written to a file and read back",
  "Writing any tariff to a file and reading it back gives a tariff that charges the same energy rate, demand period, demand rate and base charge in every hour of the year. Files without a required column or without exactly one row per hour of the year are refused.",
  ["inputs", "configurations"], "All tariffs, including those with a separate rate for each hour.",
  "Tests round-trip one tariff and compare its maps, not the charge of every hour.",
  [B + "UtilityCostTracker.py"], ["file export", "file import"],
  "Bounded: file contents are enumerated (listed and sampled tariffs) because text formatting is outside the verifier.")
P("S01", "Heater capacity makes the whole day's load within the permitted hours",
  "For every building, temperatures, run hours and defrost factor, running the sized capacity for the permitted daily hours delivers exactly the heat of the daily hot water use, raised from the design inlet to the supply temperature; defrosting is allowed for by dividing by its factor. Return-to-primary plants add the recirculation loss of the day to that load. Instantaneous plants are sized without storage for the heat of the busiest hour, so that they meet every interval of the peak day.",
  ["inputs", "configurations"], "All daily uses, load shapes, temperatures, run hours, defrost factors and loop flows.",
  "Tests compare a few sized plants with recorded numbers.",
  [D + "DHWSystem.py", D + "InstantWHSystem.py", D + "rtp_systems/SinglePassRTPSystem.py", D + "rtp_systems/MultiPassRTPSystem.py"],
  ["minimum capacity of the primary heaters", "instantaneous capacity", "recirculation share of return-to-primary capacity", "multi-pass capacity"],
  "Swing plants reduce their primary capacity by an effective mix fraction that comes out of a minute simulation and is checked for sampled plants only.")
P("S02", "Storage covers exactly the largest shortfall of the peak day",
  "For every daily load shape and every hourly output that makes the day's use within the day, the usable part of the sized storage equals the largest accumulated shortfall that arises on any stretch of repeated peak days when demand outruns the heaters. The plant therefore never runs out on the design day, and no storage is added beyond that.",
  ["inputs", "configurations"], "All building sizes of all published types, all hourly outputs, and days built of arbitrary demand blocks.",
  "Tests size a few buildings; whether any stretch of hours outruns the plant depends on the whole shape.",
  [D + "DHWSystem.py"], ["running volume of the peak day", "storage volume"],
  "Oracle: a reservoir simulation over two days. Published shapes and four block partitions of the day symbolic; arbitrary 24-value shapes sampled (bounded).")
P("S03", "Only the water above the on-sensor that is hot enough counts as storage",
  "For every sensor height, on-trigger temperature, storage temperature and stratification slope, the sized volume times the usable share of the tank equals the required running volume. The usable share is the heat above inlet temperature of the water at or above the sensor that is at least at supply temperature when the heater is about to start, expressed in supply-temperature water. The normal mode decides; where there is none, the mode with the smallest share does.",
  ["inputs", "configurations"], "All sensor heights, triggers, temperatures and slopes that leave usable water in the tank.",
  "Tests use a few sensor heights with the trigger at supply temperature.",
  [D + "DHWSystem.py", C + "heating/Controls.py"], ["storage volume from running volume and usable share", "usable share of a set of controls"],
  "Usable share recomputed from the linear temperature profile.")
P("S04", "Load shifting is sized to ride through the shed period and recharge",
  "For every load shift schedule, capacity covers the daily use in the hours that are neither shed nor beyond the permitted run hours, and also the recharge of the load-up band plus the use meanwhile within the load-up hours. Storage covers the share of demand to be shifted through the first shed period and the largest shortfall after it, within the band between load-up and shed sensors. Neither is ever smaller than without load shifting, and storage is no larger than the greater of the two requirements. For a single-pass return plant the heat its loop loses all day counts as further use, in capacity and in shifted storage.",
  ["inputs", "configurations", "schedules"], "All sensor heights in order, building sizes, shifted shares and run hours, for the listed schedules.",
  "Tests size a few load shift plants against recorded numbers.",
  [D + "DHWSystem.py"], ["load shift capacity", "load shift storage"],
  "Seven schedule layouts (split sheds, sheds touching midnight, with and without load-up) enumerated; everything else symbolic.")
P("S05", "Sizing is repeatable and leaves building, settings and controls alone",
  "For every kind of plant, sizing it, computing its sizing curves or its resistance coverage points changes neither the building, nor its load shape in force, nor the settings of the plant, nor its controls, whether the computation succeeds or fails. Sizing the same plant for the same building again gives the same capacity and storage, and computing a curve keeps the sizing results.",
  ["inputs", "histories", "crash_points"], "All plants and building sizes, annual and daily load shapes, with and without load shifting, including failing computations.",
  "Tests size each plant once and look at the results only.",
  [D + "DHWSystem.py", D + "recirc_systems/SwingSystem.py", D + "recirc_systems/SwingERTrdOffSystem.py", B + "Building.py"],
  ["size", "swing sizing", "resistance coverage points", "switching between annual and daily load shape"],
  "Plants sized by minute simulation (swing, multi-pass) and the curves are bounded: sampled on the real code.")
P("S06", "Every point of a sizing curve is the sizing it stands for",
  "Each point of a sizing curve is the capacity and storage obtained by sizing the same plant with that point's run hours; each point of a load shift curve is the sizing for that share of days. Curves hold one point per step between 24 hours and the peak hour (or per percent from 25 to 100), stop only where nothing can be sized, and mark the permitted run hours or requested percentage as recommended. Covering more days never needs less capacity or storage, and a load shift curve without a shed mode is refused.",
  ["inputs", "configurations"], "All building sizes and kinds of plant, run hours, slopes and percentages.",
  "Tests check the shape of a few curves, not that the points are sizings.",
  [D + "DHWSystem.py", D + "recirc_systems/SwingSystem.py", D + "recirc_systems/SwingERTrdOffSystem.py"],
  ["sizing curve", "swing curves", "swing resistance curves", "load shift curve", "sizing plot"],
  "Building size symbolic for plants without minute simulation; swing plants, monotonicity of single-pass return plants and plots bounded.")
P("S07", "Multi-pass plants hold the largest batch and heat it in time",
  "The storage of a multi-pass return-to-primary plant, times the share of its tank that is usable at the on-trigger, is the largest batch of water it has to heat at once over two consecutive peak days: water drawn in by load and loop joins the batch, heaters of the required capacity warm it without pause, and at storage temperature it is done. The plant that is built has that storage and at least the required capacity: while trial days leave the tank without usable water, capacity is raised by the heat missing at the coldest outlet over the minutes since the heaters had started. Each point of its sizing curve is the plant built for that run time alone, listed with the hours its capacity needs for the day's use and loop, and the recommended point is the plant itself. Sensors in unusable water and load shifting are refused.",
  ["inputs", "histories"], "All uses of all minutes, temperatures, loop flows, slopes, run hours and controls; all outcomes of trial days.",
  "Tests check that a few plants get some storage; the account of 2880 minutes and of the trial days is not checked.",
  [D + "rtp_systems/MultiPassRTPSystem.py", D + "DHWSystem.py", D + "utils.py"],
  ["largest batch of two days", "mixing valve", "hot water left at the on-trigger", "trial days and capacity increase", "sizing curve"],
  "The 2880-minute account and one round of trial days are proved by loop invariants for an arbitrary use of every minute; further rounds and the curve are bounded.")
P("R01", "Loop losses and parallel loop tanks and heaters match the loop's heat",
  "The recirculation loss is the heat its flow loses between supply and return temperature, the same in every plant, and the daily loss is 24 times that. A parallel loop tank holds, between its heater's off and on temperature, exactly the loss of the off time, and its heaters together deliver the loss times the safety factor, while settings with which the loop heater cannot cycle are refused. The built plant consists of a tank and heaters of exactly the sized volume, capacity and thermostat settings.",
  ["inputs", "configurations"], "All flows, temperatures, off times, safety factors and heater counts.",
  "Tests size one or two loops.",
  [D + "recirc_systems/ParallelLoopSystem.py", D + "recirc_systems/RecircSystem.py"],
  ["loop tank and heater sizing", "recirculation loss", "construction from a sizing"],
  "All quantities symbolic.")
P("R02", "Swing tank is the smallest listed tank that carries the loop",
  "The swing tank chosen is the smallest listed size that covers the recirculation loss at 100 W per gallon and holds more than a minute of the peak draw, and the Californian size follows the same rule within its own list. Its element delivers the recirculation loss times the safety factor. Loops too large for every listed tank and safety factors of one or less are refused.",
  ["inputs", "configurations"], "All flows, temperatures, safety factors and daily uses.",
  "Tests cover a few table entries.",
  [D + "recirc_systems/SwingSystem.py", D + "recirc_systems/SwingERTrdOffSystem.py"],
  ["swing tank choice", "swing element"],
  "Proved on the tank-sizing step; whole swing sizings (which run a minute simulation) sampled.")
P("R04", "Swing plants are sized for the water and heat the swing tank passes on",
  "In the minute account behind a swing plant's size the swing tank takes from the plant the water that carries the load at its own temperature, loses the loop's heat and gains its element's, which starts at supply temperature and stops eight degrees above; a plant whose element cannot keep supply temperature is refused. Storage covers, at the on-trigger, the largest shortfall of generation in the permitted hours behind that water over a day from any hour in which the plant falls behind (or the hour after), capacity makes the water passed on, at storage temperature, in those hours, and load shifting adds the shifted and load-up water in the same account. The extra element of the resistance variant makes up, with its safety factor, exactly the worst minute below supply temperature over two days from the first such hour, begun with the store empty and full; each coverage point is the element for that share of the use. The plant that is built has the parts that were sized.",
  ["inputs", "histories"], "All uses, temperatures, loop flows, tanks, elements, run hours, controls and schedules.",
  "Tests compare a few sizes with recorded numbers; the minute account behind them is not checked.",
  [D + "recirc_systems/SwingSystem.py", D + "recirc_systems/SwingERTrdOffSystem.py"],
  ["minute of the swing tank", "running volume and mix fraction", "load shift volumes and rates", "extra element", "coverage points"],
  "The minute is proved for every state, the extra element's two accounts of 2880 minutes by loop invariants for any use of any minute; storage, capacity, load shifting and coverage are bounded against a separate minute account.")
P("R05", "The mixing valve balances volume and heat between tank, load and loop",
  "For every load, loop flow and temperature the volume drawn from the tank is between nothing and what is served, and the heat taken from the tank (drawn volume times the rise from its re-entry temperature) is exactly the heat that load and loop need. The water that replaces the draw lies between cold and return temperature, return water entering the tank only beyond the load; with no draw at all nothing is drawn.",
  ["inputs"], "All loads, loop flows and temperatures with storage at or above supply temperature, including zero flows.",
  "Tests evaluate a few points away from the limits.",
  [D + "utils.py"], ["mixing valve flows"],
  "All quantities symbolic.")
P("M01", "A simulation runs every step once and records it completely and aligned",
  "A simulation starts from a tank charged down to the normal on-sensor and a hot loop tank, asks the plant once for every step of the period in order with the building and interval, and records each reported quantity of each step in its place. All records of a run, including those of the temperature maintenance heater and steps of unknown power, have one entry per simulated step, and totals and exported tables agree with them. Periods other than the two supported ones are refused.",
  ["inputs", "histories"], "All step reports of any plant, with and without loop heater and known power.",
  "Tests run stock plants and look at aggregates.",
  [I + "Simulator.py", S + "SimulationRun.py"], ["simulation loop and preparation", "recording, totals and export"],
  "The plant is an arbitrary scripted one; symbolic runs are short (ended by the deficit rule), whole runs of 4320 and 52560 steps sampled.")
P("M02", "Outages are counted and a run stops exactly when delivery fails too long",
  "Every step that ends without usable hot water adds its length to the outage minutes, and a run counts as successful exactly while the outage stays within the permitted minutes. A run ends early exactly with the first step at which delivery has been more than the threshold below supply temperature for longer than the permitted time without a break, that step included in the record, and says so; otherwise it runs to the end.",
  ["inputs", "histories"], "All histories of delivery temperature and usable volume, thresholds and permitted times.",
  "Tests use plants that either never or always fail.",
  [S + "SimulationRun.py", I + "Simulator.py"], ["outage account and deficit rule", "early stop of the loop"],
  "The deficit rule is proved from arbitrary histories of four steps; whole simulations symbolic up to eight steps, longer ones sampled.")
P("M03", "A simulated step switches, heats and draws in order and reports the result",
  "In every step each heater first decides on the tank as the step finds it by the controls of that hour, the heat of the running heaters at that step's weather goes into the tank, and then the demand of the step is drawn; the tank temperatures and usable volume reported are those left after that. The reported demand, weather, mode, heat and power are those of the same step, power being unknown only when it is for every running heater. A parallel loop tank is cooled by the return water before its own heater decides and heats it, and an instantaneous plant makes exactly the heat of the demand.",
  ["inputs", "configurations", "schedules"], "All tank states, weather, demands, capacities, control settings, heater states and loop flows, at steps on both sides of mode, day and year boundaries.",
  "Tests run whole stock simulations and compare aggregates; the order of operations within a step shows in particular states only.",
  [D + "DHWSystem.py", D + "recirc_systems/ParallelLoopSystem.py", D + "InstantWHSystem.py", D + "rtp_systems/SinglePassRTPSystem.py", D + "rtp_systems/MultiPassRTPSystem.py"],
  ["simulate_step of every plant without swing tank", "loop tank step"],
  "Symbolic with a mixed tank; stratified tanks, single-pass return and multi-pass steps sampled against the tank's own operations (bounded).")
P("R03", "A swing plant's step balances the heat of swing tank, primary tank and loop",
  "In every step the swing tank takes in as much primary water as carries the demand at its own temperature, loses exactly the heat of the loop and gains exactly the heat of its element, which runs exactly when its thermostat calls after that. The primary tank is heated by its own heaters and gives exactly the volume the swing tank takes in, and nothing counts as usable while the swing tank is below supply temperature. The element's power is its heat, and delivery is at the temperature of the swing tank.",
  ["inputs", "configurations", "schedules"], "All states of both tanks, demands, loop flows, capacities and heater states.",
  "Tests compare a few simulated swing plants with recorded numbers.",
  [D + "recirc_systems/SwingSystem.py", D + "recirc_systems/SwingERTrdOffSystem.py"],
  ["swing step"],
  "Symbolic with a mixed primary tank; stratified primary tanks sampled (bounded).")
P("E01", "The engine builds exactly the plant its parameters describe",
  "Every schematic name gives its kind of plant, for the building and place named, with the given temperatures, loop, run hours and control settings: shed where the load shift schedule says so, load-up in the stated hours before the first shed hour, normal otherwise, settings left out taking their defaults, and controls for every mode scheduled. Without a given size the plant is the one sized directly with those settings; with one, its tanks and heaters have exactly the stated volumes and capacities, shared equally among the stated number of units. Unknown schematics or places and plants without the loop, loop tank or loop heat they need are refused.",
  ["inputs", "configurations", "schedules"], "All sizes, temperatures, control settings, loop and loop tank parameters, for every schematic; listed schedule layouts and combinations of settings left out.",
  "Tests build a few engines with default settings.",
  [I + "EcosizerEngine.py"], ["construction of building, controls and plant", "pre-sized plants", "validation of parameters"],
  "Sized plants: building and loop size symbolic for listed settings; plants sized by minute simulation, climate lookups and heaters named by model bounded.")
P("E02", "Answers of the engine and catalogue are those of the plant and data",
  "The capacity quoted for a model is that of its performance map times the number of units less the defrost derate, in the unit asked for, and invalid counts and derates are refused. Model and station lists hold exactly the catalogue entries that pass the filters, in order. Sizing results, curve points, simulations and the utility comparison obtained through the engine are those of its own plant, building and runs, with the recommended curve point equal to the sizing.",
  ["inputs", "configurations"], "All unit counts and derates, every model, every combination of filters, sampled plants.",
  "Tests query a few models and look at the shape of results.",
  [I + "EcosizerEngine.py"], ["capacity quotation", "model and station lists", "curve points", "utility comparison"],
  "Capacity quotation symbolic in units and derate; lists enumerated; curves, runs and comparison sampled (bounded).")
