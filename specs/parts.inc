//@owner C02 C10 C24
//@impl src/instruments/panel.rs Panel
//@ fn new
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter), r.name is None, r.counter is None, r.gauge is None, r.meter is None, r.histogram is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@ fn named
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)), call_requires(<T as Into<String>>::into, ($2,)),
    ensures call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter), r.name is Some, call_ensures(<T as Into<String>>::into, ($2,), r.name.unwrap()), r.counter is None, r.gauge is None, r.meter is None, r.histogram is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter), r.name is None, r.counter is None, r.gauge is None, r.meter is None, r.histogram is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@ fn accept_named
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)), call_requires(<T as Into<String>>::into, ($2,)),
    ensures call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter), r.name is Some, call_ensures(<T as Into<String>>::into, ($2,), r.name.unwrap()), r.counter is None, r.gauge is None, r.meter is None, r.histogram is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@ fn accept_all_named
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures forall|l: L| #[trigger] r.label_filter.acc(l), r.name is Some, call_ensures(<T as Into<String>>::into, ($1,), r.name.unwrap()), r.counter is None, r.gauge is None, r.meter is None, r.histogram is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@ fn accept_all
    ensures forall|l: L| #[trigger] r.label_filter.acc(l), r.name is None, r.counter is None, r.gauge is None, r.meter is None, r.histogram is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@end
//@impl src/cockpit.rs Cockpit : Default
//@ header impl<L: Clone + Eq + Send + 'static> Cockpit<L>
//@ fn default
    ensures r.name is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@end
//@impl src/cockpit.rs Cockpit
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.name is Some, call_ensures(<T as Into<String>>::into, ($1,), r.name.unwrap()), r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@ fn without_name
    ensures r.name is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None,
//@end
//@owner C02
//@impl src/instruments/panel.rs Panel
//@ fn add_handler
    ensures final(self).handlers@ == old(self).handlers@.push(vx_boxed($1)), *final(self) == (Panel { handlers: final(self).handlers, ..*old(self) }),
//@ fn handler
    ensures r.handlers@ == self.handlers@.push(vx_boxed($1)), r == (Panel { handlers: r.handlers, ..self }),
//@ fn add_instrument
    ensures exists|x: InstrumentAdapter<L, I>| #[trigger] adapts(x, $1) && final(self).handlers@ == old(self).handlers@.push(vx_boxed(x)), *final(self) == (Panel { handlers: final(self).handlers, ..*old(self) }),
//@ fn instrument
    ensures exists|x: InstrumentAdapter<L, T>| #[trigger] adapts(x, $1) && r.handlers@ == self.handlers@.push(vx_boxed(x)), r == (Panel { handlers: r.handlers, ..self }),
//@ fn add_panel
    ensures final(self).panels@ == old(self).panels@.push($1), *final(self) == (Panel { panels: final(self).panels, ..*old(self) }),
//@ fn panel
    ensures r.panels@ == self.panels@.push($1), r == (Panel { panels: r.panels, ..self }),
//@ fn add_counter
    requires call_requires(<I as Into<InstrumentAdapter<L, Counter>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Counter>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Counter>>>::into, ($1,), x) && *final(self) == (if old(self).counter is None { Panel { counter: Some(x), ..*old(self) } } else { Panel { handlers: final(self).handlers, ..*old(self) } })
        && (old(self).counter is Some ==> final(self).handlers@ == old(self).handlers@.push(vx_boxed(x))),
//@ fn counter
    requires call_requires(<I as Into<InstrumentAdapter<L, Counter>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Counter>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Counter>>>::into, ($1,), x) && r == (if self.counter is None { Panel { counter: Some(x), ..self } } else { Panel { handlers: r.handlers, ..self } })
        && (self.counter is Some ==> r.handlers@ == self.handlers@.push(vx_boxed(x))),
//@ fn add_gauge
    requires call_requires(<I as Into<GaugeAdapter<L>>>::into, ($1,)),
    ensures exists|x: GaugeAdapter<L>| #[trigger] call_ensures(<I as Into<GaugeAdapter<L>>>::into, ($1,), x) && *final(self) == (if old(self).gauge is None { Panel { gauge: Some(x), ..*old(self) } } else { Panel { handlers: final(self).handlers, ..*old(self) } })
        && (old(self).gauge is Some ==> final(self).handlers@ == old(self).handlers@.push(vx_boxed(x))),
//@ fn gauge
    requires call_requires(<I as Into<GaugeAdapter<L>>>::into, ($1,)),
    ensures exists|x: GaugeAdapter<L>| #[trigger] call_ensures(<I as Into<GaugeAdapter<L>>>::into, ($1,), x) && r == (if self.gauge is None { Panel { gauge: Some(x), ..self } } else { Panel { handlers: r.handlers, ..self } })
        && (self.gauge is Some ==> r.handlers@ == self.handlers@.push(vx_boxed(x))),
//@ fn add_meter
    requires call_requires(<I as Into<InstrumentAdapter<L, Meter>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Meter>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Meter>>>::into, ($1,), x) && *final(self) == (if old(self).meter is None { Panel { meter: Some(x), ..*old(self) } } else { Panel { handlers: final(self).handlers, ..*old(self) } })
        && (old(self).meter is Some ==> final(self).handlers@ == old(self).handlers@.push(vx_boxed(x))),
//@ fn meter
    requires call_requires(<I as Into<InstrumentAdapter<L, Meter>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Meter>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Meter>>>::into, ($1,), x) && r == (if self.meter is None { Panel { meter: Some(x), ..self } } else { Panel { handlers: r.handlers, ..self } })
        && (self.meter is Some ==> r.handlers@ == self.handlers@.push(vx_boxed(x))),
//@ fn add_histogram
    requires call_requires(<I as Into<InstrumentAdapter<L, Histogram>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Histogram>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Histogram>>>::into, ($1,), x) && *final(self) == (if old(self).histogram is None { Panel { histogram: Some(x), ..*old(self) } } else { Panel { handlers: final(self).handlers, ..*old(self) } })
        && (old(self).histogram is Some ==> final(self).handlers@ == old(self).handlers@.push(vx_boxed(x))),
//@ fn histogram
    requires call_requires(<I as Into<InstrumentAdapter<L, Histogram>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Histogram>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Histogram>>>::into, ($1,), x) && r == (if self.histogram is None { Panel { histogram: Some(x), ..self } } else { Panel { handlers: r.handlers, ..self } })
        && (self.histogram is Some ==> r.handlers@ == self.handlers@.push(vx_boxed(x))),
//@end
//@impl src/cockpit.rs Cockpit
//@ fn add_handler
    ensures final(self).handlers@ == old(self).handlers@.push(vx_boxed($1)), *final(self) == (Cockpit { handlers: final(self).handlers, ..*old(self) }),
//@ fn handler
    ensures r.handlers@ == self.handlers@.push(vx_boxed($1)), r == (Cockpit { handlers: r.handlers, ..self }),
//@end
//@impl src/processor.rs TelemetryProcessor
//@ fn add_handler
    ensures final(self).handlers@ == old(self).handlers@.push(vx_boxed($1)), *final(self) == (TelemetryProcessor { handlers: final(self).handlers, ..*old(self) }),
//@ fn handler
    ensures r.handlers@ == self.handlers@.push(vx_boxed($1)), r == (TelemetryProcessor { handlers: r.handlers, ..self }),
//@end
//@owner C16
//@impl src/instruments/panel.rs Panel
//@ fn add_snapshooter
    ensures final(self).snapshooters@ == old(self).snapshooters@.push(vx_boxed_s($1)), *final(self) == (Panel { snapshooters: final(self).snapshooters, ..*old(self) }),
//@ fn snapshooter
    ensures r.snapshooters@ == self.snapshooters@.push(vx_boxed_s($1)), r == (Panel { snapshooters: r.snapshooters, ..self }),
//@end
//@impl src/cockpit.rs Cockpit
//@ fn add_snapshooter
    ensures final(self).snapshooters@ == old(self).snapshooters@.push(vx_boxed_s($1)), *final(self) == (Cockpit { snapshooters: final(self).snapshooters, ..*old(self) }),
//@ fn snapshooter
    ensures r.snapshooters@ == self.snapshooters@.push(vx_boxed_s($1)), r == (Cockpit { snapshooters: r.snapshooters, ..self }),
//@end
//@impl src/processor.rs TelemetryProcessor
//@ fn add_snapshooter
    ensures final(self).snapshooters@ == old(self).snapshooters@.push(vx_boxed_s($1)), *final(self) == (TelemetryProcessor { snapshooters: final(self).snapshooters, ..*old(self) }),
//@ fn snapshooter
    ensures r.snapshooters@ == self.snapshooters@.push(vx_boxed_s($1)), r == (TelemetryProcessor { snapshooters: r.snapshooters, ..self }),
//@end
//@owner C24 C10
//@impl src/instruments/panel.rs Panel
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).name is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).name.unwrap()), *final(self) == (Panel { name: final(self).name, ..*old(self) }),
//@ fn set_title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).title is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).title.unwrap()), *final(self) == (Panel { title: final(self).title, ..*old(self) }),
//@ fn set_description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).description is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).description.unwrap()), *final(self) == (Panel { description: final(self).description, ..*old(self) }),
//@end
//@impl src/cockpit.rs Cockpit
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).name is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).name.unwrap()), *final(self) == (Cockpit { name: final(self).name, ..*old(self) }),
//@ fn set_title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).title is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).title.unwrap()), *final(self) == (Cockpit { title: final(self).title, ..*old(self) }),
//@ fn set_description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).description is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).description.unwrap()), *final(self) == (Cockpit { description: final(self).description, ..*old(self) }),
//@end
//@impl src/processor.rs TelemetryProcessor
//@ fn get_name
    ensures named_as(r, self.name),
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).name is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).name.unwrap()), *final(self) == (TelemetryProcessor { name: final(self).name, ..*old(self) }),
//@end
//@owner -
