#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include label_filter.inc
//@include update.inc
//@include handles.inc
//@include panel.inc
//@owner C02
//@impl src/cockpit.rs Cockpit
//@ fn add_handler
    ensures final(self).handlers@ == old(self).handlers@.push(vx_boxed($1)), *final(self) == (Cockpit { handlers: final(self).handlers, ..*old(self) }),
//@end
//@impl src/instruments/panel.rs Panel
//@ fn accepts_label
    requires vx_eq_ok::<L>(),
    ensures r == self.label_filter.acc(*$1),
//@ fn new
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter), r.counter is None, r.gauge is None, r.meter is None, r.histogram is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0,
//@ fn add_handler
    ensures final(self).handlers@ == old(self).handlers@.push(vx_boxed($1)), *final(self) == (Panel { handlers: final(self).handlers, ..*old(self) }),
//@ fn add_panel
    ensures final(self).panels@ == old(self).panels@.push($1), *final(self) == (Panel { panels: final(self).panels, ..*old(self) }),
//@ fn add_counter
    requires call_requires(<I as Into<InstrumentAdapter<L, Counter>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Counter>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Counter>>>::into, ($1,), x) && *final(self) == if old(self).counter is None { Panel { counter: Some(x), ..*old(self) } } else { Panel { handlers: final(self).handlers, ..*old(self) } }
        && (old(self).counter is Some ==> final(self).handlers@ == old(self).handlers@.push(vx_boxed(x))),
//@ fn add_gauge
    requires call_requires(<I as Into<GaugeAdapter<L>>>::into, ($1,)),
    ensures exists|x: GaugeAdapter<L>| #[trigger] call_ensures(<I as Into<GaugeAdapter<L>>>::into, ($1,), x) && *final(self) == if old(self).gauge is None { Panel { gauge: Some(x), ..*old(self) } } else { Panel { handlers: final(self).handlers, ..*old(self) } }
        && (old(self).gauge is Some ==> final(self).handlers@ == old(self).handlers@.push(vx_boxed(x))),
//@ fn add_meter
    requires call_requires(<I as Into<InstrumentAdapter<L, Meter>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Meter>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Meter>>>::into, ($1,), x) && *final(self) == if old(self).meter is None { Panel { meter: Some(x), ..*old(self) } } else { Panel { handlers: final(self).handlers, ..*old(self) } }
        && (old(self).meter is Some ==> final(self).handlers@ == old(self).handlers@.push(vx_boxed(x))),
//@ fn add_histogram
    requires call_requires(<I as Into<InstrumentAdapter<L, Histogram>>>::into, ($1,)),
    ensures exists|x: InstrumentAdapter<L, Histogram>| #[trigger] call_ensures(<I as Into<InstrumentAdapter<L, Histogram>>>::into, ($1,), x) && *final(self) == if old(self).histogram is None { Panel { histogram: Some(x), ..*old(self) } } else { Panel { handlers: final(self).handlers, ..*old(self) } }
        && (old(self).histogram is Some ==> final(self).handlers@ == old(self).handlers@.push(vx_boxed(x))),
//@end
//@owner -
} // verus!
fn main() {}
