#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include label_filter.inc
//@include update.inc
//@include handles.inc
//@include names.inc
//@owner C10
//@impl src/cockpit.rs Cockpit
//@ fn panel
    ensures r.panels@ == add_named(self.panels@, $1), r == (Cockpit { panels: r.panels, ..self }),
//@end
//@impl src/processor.rs TelemetryProcessor
//@ fn cockpit
    ensures r.cockpits@ == add_named(self.cockpits@, $1), r == (TelemetryProcessor { cockpits: r.cockpits, ..self }),
//@end
//@owner -
} // verus!
fn main() {}
