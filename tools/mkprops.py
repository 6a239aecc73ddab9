#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator only to keep the long lines readable in review).
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Label filters accept exactly the configured labels",
"A label filter built from labels, tuples, a list, a predicate, accept-all or accept-none, and then extended one label at a time, accepts a label exactly when the label equals one that was configured or added, or the configured predicate accepts it; an accept-all filter (also the default) stays accept-all and an accept-none filter that was not extended accepts nothing. This holds for every number and order of additions, including duplicates.",
["inputs","histories"],"for every construction, every finite sequence of added labels and every queried label of every label type with a lawful equality",
"the unit tests sample filters with 0 to 6 integer labels and one predicate; the representation changes shape with the number of labels, and later additions, duplicates and predicate-plus-label chains are unbounded",
["src/instruments/label_filter.rs"],[("add_label/accepts over the internal representation","src/instruments/label_filter.rs"),("From impls","src/instruments/label_filter.rs")],["LabelFilter::accepts"])

p("C02","Every accepted observation reaches every component exactly once",
"An observation handled by a panel whose filter accepts its label is handed exactly once, unchanged, to every instrument, nested panel and handler of that panel; a panel whose filter rejects the label hands it to nobody; a cockpit hands every observation exactly once to each of its handlers and panels. The reported number of updated instruments is the sum of what those components reported (zero when the filter rejects the label).",
["inputs","programs","configurations"],"for every composition of panels, cockpits, handlers and instruments, every observation",
"tests deliver a few observations to at most two or three instruments; number and nesting of components, filters and observations are unbounded",
["src/instruments/panel.rs","src/cockpit.rs","src/instruments/instrument_adapter.rs"],[("Panel::handle_observation","src/instruments/panel.rs"),("Cockpit::handle_observation","src/cockpit.rs"),("InstrumentAdapter::handle_observation","src/instruments/instrument_adapter.rs")],["HandlesObservations::handle_observation"])

p("C03","A counter equals the number of observations it received",
"After any sequence of updates a counter's value is its starting value plus the sum of what the updates stood for: n for an update standing for n observations and one for every single observation, with or without a value, as long as that sum fits in 64 bits. Every update reports exactly one updated instrument and the snapshot shows exactly this number under the counter's name.",
["inputs","histories"],"for every sequence of updates whose total fits in 64 bits",
"the tests do a single increment; histories are unbounded",
["src/instruments/counter.rs"],[("Counter::update/inc/inc_by","src/instruments/counter.rs")],["Counter::get","PutsSnapshot"])

p("C04","A gauge shows the value its updates describe",
"A gauge's value is a function of its previous value and the update: a delta is added to the value (a gauge without a value takes the delta as its value), a duration becomes that duration converted to the gauge's display unit (microseconds by default), a value convertible to a signed 64-bit integer replaces the value, and any other value leaves it unchanged (as long as the results fit in 64 bits). An update with a value reports one updated instrument; observations without a value do not touch the gauge and report zero updated instruments. The snapshot shows exactly this value, and nothing if there is none.",
["inputs","histories"],"for every sequence of updates whose intermediate values fit in 64 bits",
"tests sample a handful of short set/increment sequences; the state is an unbounded fold over arbitrary update sequences of all value kinds",
["src/instruments/gauge/mod.rs","src/instruments/mod.rs"],[("Gauge::set/next_value/update","src/instruments/gauge/mod.rs")],["Gauge::get","PutsSnapshot"])

p("C05","Gauge adapters apply their configured strategy",
"A plain gauge adapter forwards every observation whose label it accepts; a deltas-only adapter changes its gauge only for accepted observations that carry a delta; an increment/decrement adapter adds exactly one for every observation with an increment label, subtracts exactly one for every observation with a decrement label that is not also an increment label, and ignores all others whatever value they carry. An observation that is ignored leaves the gauge untouched and reports zero updated instruments.",
["inputs","histories"],"for every adapter configuration, every label and every observation kind",
"tests cover a few labels and value kinds per strategy",
["src/instruments/gauge/gauge_adapter.rs"],[("GaugeAdapter::handle_observation","src/instruments/gauge/gauge_adapter.rs")],["GaugeAdapter::handle_observation","Gauge::get"])

p("C06","Gauge tracking covers exactly the configured last seconds",
"For a gauge tracking the last N seconds, the tracked data at any time consists of exactly the values recorded in the current second and the N-1 seconds before it, grouped by second; older ones are gone whatever the pattern of updates, queries and idle times in between, and no value in the window is lost or attributed to a different second. An update that carries a value records the gauge's resulting value once (a value the gauge cannot take records its current value again). Updating and querying never fail, whatever N and however long the gauge was idle.",
["inputs","histories"],"for every window length, every interleaving of updates and queries and every non-decreasing sequence of clock readings",
"tests use a few window sizes and hand-picked jumps; wrap-around depends on the window length, position and idle time",
["src/instruments/fundamentals/buckets.rs","src/instruments/fundamentals/clock.rs"],[("SecondsBuckets::tick/current_mut/iter","src/instruments/fundamentals/buckets.rs")],["gauge snapshot values"],"guarded re-export of the bucket ring for native replay",
[("current position and epoch of the ring","which slot stands for which second","src/instruments/fundamentals/buckets.rs")])

p("C07","Gauge tracking statistics summarise the tracked window",
"With tracking enabled, peak and bottom are the maximum and minimum of the values recorded in the window, peak_min and bottom_max are the smallest per-second maximum and the largest per-second minimum over the seconds that saw updates, avg is the arithmetic mean of the recorded values, and peak_avg/bottom_avg are the per-second maxima/minima summed and divided by the number of tracked seconds (sums fitting in 64 bits). If nothing was recorded in the window every statistic equals the current value.",
["inputs","histories"],"for every content of the window (sums within 64 bits)",
"tests use one or two buckets with one or two values each",
["src/instruments/gauge/tracking.rs"],[("Bucket::update, BucketsStats::from_buckets/add_to_snapshot","src/instruments/gauge/tracking.rs")],["gauge snapshot values"],"guarded re-export for native replay")

p("C08","The processing strategy decides which observations are dropped",
"Under process-all every observation is processed and under drop-all none is; under drop-older-than an observation is processed exactly when its timestamp is not before now minus the maximum age (whatever that age is), or it is a delta and dropping deltas was not requested. The default strategy is drop-older-than 30 seconds, keeping deltas.",
["inputs","configurations"],"for every strategy, every observation kind and every timestamp",
"the strategies have no boundary tests; timestamps, ages and observation kinds are unbounded",
["src/processor.rs","src/observation.rs"],[("ProcessingStrategy::decider, ProcessingDecider::should_be_processed","src/processor.rs"),("Observation::is_delta/timestamp","src/observation.rs")],["ProcessingDecider::should_be_processed","ProcessingOutcome"])

p("C09","A processing run accounts for every message it consumes",
"One processing run takes messages from the queue in order and at most the allowed number of them; every observation taken is either delivered exactly once to every cockpit and handler (and counted processed) or delivered to nobody (and counted dropped), and control messages always take effect, in order, and are counted processed. processed + dropped equals the number of messages taken, the reported updates are the sum over all deliveries, and the reported number of enqueued observations is the length of the queue after the run. Once the senders are gone and the queue is empty the processor reports empty outcomes forever.",
["inputs","histories"],"for every queue content, every limit, every strategy",
"the tests check a few hand-made message sequences; queue contents and limits are unbounded",
["src/processor.rs"],[("TelemetryProcessor::process","src/processor.rs")],["ProcessesTelemetryMessages::process"])

p("C10","Named cockpits and panels stay unique and are removed by name",
"Adding a named cockpit to a processor, or a named panel to a cockpit, that already contains one of that name changes nothing, otherwise it is appended; components without a name are always appended. Removing by name removes exactly the components with that name and keeps all others in their order; adding or removing a panel through a processor affects only the first cockpit of the given name.",
["inputs","histories"],"for every sequence of additions and removals",
"no test covers name collisions after arbitrary add/remove histories",
["src/cockpit.rs","src/processor.rs"],[("Cockpit::add_panel/remove_panel","src/cockpit.rs"),("TelemetryProcessor::add_cockpit/remove_cockpit/process","src/processor.rs")],["get_cockpits/get_panels, snapshots"])

p("C11","Snapshot lookup follows the path",
"Looking up a path in a snapshot ignores empty path segments, follows in each level the first item with the segment's name, and returns the item reached when the path is exhausted or when a plain value is reached earlier; it reports not found when a level has no such item or when the path has no non-empty segment. Looking up in a found item continues from that item and works only if it is itself a snapshot; any separator character gives the same result for the correspondingly separated path.",
["inputs"],"for every snapshot and every path",
"tests look up a few paths in one snapshot; nesting, duplicate names and empty segments are unbounded",
["src/snapshot.rs"],[("Snapshot::find_with_separator, find_item, FindItem::find_with_separator","src/snapshot.rs")],["Snapshot::find"])

p("C12","JSON output represents the snapshot",
"Rendering a snapshot as JSON gives an object with exactly the item names of the snapshot as keys (the last of several items with the same name is shown); texts become strings, integers and finite floats the same numbers (other floats null), nested snapshots nested objects, and booleans become true/false, or 1/0 when the configuration asks for it, at every depth. Pretty printing changes only white space.",
["inputs","configurations"],"for every snapshot and configuration",
"no existing test renders a nested snapshot with both configuration options",
["src/snapshot.rs"],[("Snapshot::to_json_value, ItemKind::to_json_value","src/snapshot.rs")],["Snapshot::to_json"])

p("C13","Time-unit conversions are exact or round down",
"Converting a duration value between nano-, micro-, milli- and seconds yields the exact value when converting to a finer unit and the value rounded down when converting to a coarser one; a duration observed in a given unit is represented as the whole number of those units it contains. This holds for every value whose exact result fits in 64 bits.",
["inputs"],"for every value and every pair of units",
"tests sample a few values per pair",
["src/instruments/mod.rs","src/observation.rs"],[("duration_to_display_value","src/instruments/mod.rs"),("From<Duration>, From<(Duration, TimeUnit)>","src/observation.rs")],["Gauge, Histogram and ValueMeter values"],"guarded re-export of the conversion for native replay")

p("C14","Observed values convert without changing the number",
"Converting a primitive number, boolean, duration or increment/decrement marker into an observed value preserves it exactly, with deltas carrying the right sign; converting an observed value to a signed or unsigned 64-bit integer yields the same number (floats rounded to the nearest integer, ties away from zero) when it fits in the target type, and nothing when it is out of range or is not a number of that kind. Only deltas are reported as deltas.",
["inputs"],"for every value of every kind",
"no test exercises range boundaries, negative floats or infinities",
["src/observation.rs"],[("convert_to_i64/u64/bool, is_delta, From impls","src/observation.rs")],["ObservedValue::convert_to_*"])

p("C15","Each transmitter call enqueues exactly the described message",
"Every call on a transmitter enqueues exactly one message carrying the label, count, value and timestamp of the call (measuring time enqueues the elapsed duration since the given instant, and nothing if that instant lies in the future); observations arrive in the order of the calls. With a bounded non-blocking queue a call on a full queue drops that message only and leaves the queue as it was. Durations are carried exactly (as far as their nanoseconds fit in 64 bits).",
["inputs","histories"],"for every sequence of transmitter calls",
"the tests count queue lengths in two scenarios; payloads and call sequences are unbounded",
["src/lib.rs"],[("TransmitsTelemetryData default methods, TelemetryTransmitter::send","src/lib.rs")],["TelemetryTransmitter, processor side effects"])

p("C16","Mounts and the driver run every processor and add up the outcomes",
"Processing a mount, and one run of the driver, runs every contained processor exactly once with the same limit and strategy, and the outcome is the componentwise sum of their outcomes; an attached mount first adopts everything that was attached to it, in order, and keeps processing its content after its sender side is gone. A processor or snapshooter attached at any level is never lost.",
["inputs","histories","configurations"],"for every tree of mounts and processors",
"the tests attach one or two processors",
["src/processor.rs","src/driver.rs","src/attached_mount.rs"],[("ProcessorMount::process","src/processor.rs"),("do_a_run","src/driver.rs"),("InternalAttachedMount::process","src/attached_mount.rs"),("ProcessingOutcome::combine_with","src/processor.rs")],["ProcessesTelemetryMessages::process"])

p("C17","Components with an inactivity limit show values exactly while active",
"A panel, cockpit, processor, mount or histogram with an inactivity limit shows its values in a snapshot exactly while its last activity lies no longer ago than the limit (for a histogram: less long ago than the limit); construction and receiving an observation count as activity (for a panel one it accepts, for a processor any message taken, for a mount a run in which something happened, for a histogram a recorded value). While it is inactive none of its values are shown. The active and inactive flags are shown, opposite to each other and consistent with the values, exactly when a limit is set and showing the activity state is enabled.",
["inputs","histories","configurations"],"for every limit, activity history and snapshot time",
"no test lets a limit elapse or reactivates a component",
["src/instruments/panel.rs","src/cockpit.rs","src/processor.rs","src/instruments/histogram.rs"],[("put_values_into_snapshot","src/instruments/panel.rs"),("put_values_into_snapshot","src/cockpit.rs"),("put_values_into_snapshot","src/processor.rs"),("Histogram::put_snapshot","src/instruments/histogram.rs")],["PutsSnapshot"])

p("C18","Time switches are on exactly for the configured time",
"An occurrence indicator is on exactly while less than its duration has passed since its latest update (off before the first), a non-occurrence indicator exactly when at least its duration has passed since its latest update or construction, and a staircase timer exactly from an update until (and including) its duration after the latest update; an inverted switch shows the opposite. The snapshot shows exactly this boolean under the switch's name and, if so configured, the opposite under the altered (prefixed, postfixed or replaced) name.",
["inputs","histories","configurations"],"for every duration and every sequence of updates and queries at non-decreasing times",
"tests use fixed sleeps of a few milliseconds",
["src/instruments/switches/occurrence_indicator.rs","src/instruments/switches/non_occurrence_indicator.rs","src/instruments/switches/staircase_timer.rs"],[("state/update/put_snapshot","src/instruments/switches")],["state(), PutsSnapshot"])

p("C19","A flag shows the last boolean state it was given",
"A flag's state is its initial state overridden by the latest update that carries a boolean or an integer (zero meaning false); every other update leaves it unchanged and reports zero updated instruments. The snapshot shows exactly this state under the flag's name and, if so configured, the opposite under the altered name, and nothing while there is no state.",
["inputs","histories"],"for every sequence of updates",
"the tests sample a few updates",
["src/instruments/switches/flag.rs"],[("Flag::update/put_snapshot","src/instruments/switches/flag.rs")],["Flag::state, PutsSnapshot"])

p("C20","A data display shows the last displayable value",
"A data display shows the latest number or boolean it was given, unchanged; updates without a displayable value (durations and deltas are not displayable) do not change it and report zero updated instruments. It shows its initial value, or nothing, before the first one, and its reset value once strictly more than the configured reset time has passed since the last displayable update.",
["inputs","histories"],"for every sequence of updates",
"hardly any tests",
["src/instruments/other_instruments/display.rs"],[("DataDisplay::update/put_snapshot","src/instruments/other_instruments/display.rs")],["DataDisplay, PutsSnapshot"])

p("C21","The last-occurrence tracker follows the latest observation",
"The tracker shows the whole seconds since it handled its latest observation and nothing before the first one (zero if so configured); every kind of observation counts as an occurrence and reports one updated instrument.",
["inputs","histories"],"for every sequence of updates",
"no boundary tests",
["src/instruments/other_instruments/last_occurrence_tracker.rs"],[("LastOccurrenceTracker::update/put_snapshot","src/instruments/other_instruments/last_occurrence_tracker.rs")],["PutsSnapshot"])

p("C22","Meters count every observation once and tick on schedule",
"A meter's total count is the sum of the counts of its updates - one for a single observation with or without a value, n for n observations - and a value meter's the sum of the non-negative whole numbers it was given (durations in its display unit), whatever the number of pending observations and ticks. Rates advance by exactly one tick per full five seconds elapsed and every observation enters the rates exactly once.",
["inputs","histories"],"for every sequence of updates and snapshots at non-decreasing times",
"the tests do single updates or run with a fixed clock",
["src/instruments/meter.rs","src/instruments/other_instruments/value_meter.rs","src/instruments/fundamentals/metrics_meter.rs"],[("StdMeter::mark/tick","src/instruments/fundamentals/metrics_meter.rs"),("Meter::update, ValueMeter::update","src/instruments/meter.rs")],["count in snapshots"],"guarded re-export for native replay")

p("C23","A histogram records exactly the values it is given",
"A histogram records exactly one sample per update that carries a recordable value: integers as they are and durations converted to its display unit; all other updates add nothing. The snapshot reports as many samples as were recorded since the last reset and, while these fit the reservoir and are less than an hour old, exactly their minimum and maximum; the samples are forgotten only by the first update after more than the inactivity limit without a recorded value, and only if resetting is enabled.",
["inputs","histories"],"for every sequence of updates",
"tests sample a few values",
["src/instruments/histogram.rs"],[("Histogram::update","src/instruments/histogram.rs")],["PutsSnapshot"])

p("C24","Snapshots only grow and are structured by name",
"Putting a component into a snapshot keeps everything already in it, in order, and only appends; a named panel, cockpit, processor, mount or driver appends exactly one nested snapshot under its name holding what an unnamed one would append directly. Titles and descriptions appear only when descriptive output is requested, at most once per component, and never replace one that is already there.",
["inputs","configurations"],"for every composition of components, every initial snapshot",
"tests look at a few fixed compositions",
["src/instruments/panel.rs","src/cockpit.rs","src/processor.rs","src/util.rs","src/driver.rs"],[("put_snapshot implementations","src"),("put_descriptives","src/util.rs")],["PutsSnapshot::put_snapshot"])

p("C25","A driver honours pause, resume and its message queue",
"A running driver processes all attached processors over and over, executes its control messages in the order they were sent, processes nothing between pause and resume, hands the strategy last set to the processors, answers every snapshot request with the state at that point of the queue, and stops when its last handle is dropped.",
["schedules","histories"],"for every interleaving of the driver thread with senders",
"needs all schedules of the driver thread",
["src/driver.rs"],[("telemetry_loop","src/driver.rs")],["TelemetryDriver"])

p("C26","Observations reach instruments with their content intact",
"An instrument adapter hands its instrument, exactly once per accepted observation, the update that carries the observation's count or value and its timestamp, after applying the configured modification to exactly that label and update; observations with labels it does not accept leave the instrument untouched and report zero updates, and otherwise the adapter reports what the instrument reported.",
["inputs","programs"],"for every observation, filter, modification function and instrument",
"tests use a counter and one modification",
["src/instruments/mod.rs","src/instruments/instrument_adapter.rs"],[("From<&Observation> for BorrowedLabelAndUpdate","src/instruments/mod.rs"),("InstrumentAdapter::handle_observation, UpdateModifier::modify","src/instruments/instrument_adapter.rs")],["Updates::update"])

p("C27","Found numbers convert to durations of the requested unit",
"Converting a found integer item to a duration gives exactly that number of the requested unit (nano-, micro-, milli- or seconds); items that are not non-negative integers are reported as not being a duration, and a missing item as not found.",
["inputs"],"for every item and unit",
"no tests",
["src/snapshot.rs"],[("FindItem::to_duration_*","src/snapshot.rs")],["FindItem"])

p("C28","The driver's own metrics account for every run and snapshot",
"If driver metrics are enabled, every run of the driver is counted and timed exactly once, and what it reports enters the driver's own metrics exactly once: the counts of processed and dropped observations and of updated instruments are totals over all runs, the histograms per collection get one sample for each run that processed (dropped) something, the number of enqueued observations is that of the latest run. Every snapshot is counted and timed exactly once. The alarm for dropped observations is on exactly until 60 seconds after the latest run that dropped something, the inactivity alarm exactly when no run has processed or dropped anything for 60 seconds. Every snapshot shows these metrics, itself counted, under `_metrix`; with driver metrics disabled there is nothing of the kind.",
["histories","schedules","inputs"],"for every sequence of runs, outcomes and snapshot requests",
"no test looks at the driver's own metrics",
["src/driver.rs"],[("DriverInstruments::{default, update_post_collection, update_post_snapshot, put_snapshot}","src/driver.rs"),("telemetry_loop, add_snapshot_values","src/driver.rs")],["TelemetryDriver"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
