/// a Counter as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct Counter { _o: () }
impl Instrument for Counter { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/counter.rs Counter
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a Meter as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct Meter { _o: () }
impl Instrument for Meter { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/meter.rs Meter
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a Histogram as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct Histogram { _o: () }
impl Instrument for Histogram { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/histogram.rs Histogram
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a ValueMeter as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct ValueMeter { _o: () }
impl Instrument for ValueMeter { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/other_instruments/value_meter.rs ValueMeter
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a DataDisplay as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct DataDisplay { _o: () }
impl Instrument for DataDisplay { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/other_instruments/display.rs DataDisplay
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a LastOccurrenceTracker as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct LastOccurrenceTracker { _o: () }
impl Instrument for LastOccurrenceTracker { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/other_instruments/last_occurrence_tracker.rs LastOccurrenceTracker
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a Flag as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct Flag { _o: () }
impl Instrument for Flag { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/switches/flag.rs Flag
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a OccurrenceIndicator as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct OccurrenceIndicator { _o: () }
impl Instrument for OccurrenceIndicator { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/switches/occurrence_indicator.rs OccurrenceIndicator
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a NonOccurrenceIndicator as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct NonOccurrenceIndicator { _o: () }
impl Instrument for NonOccurrenceIndicator { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/switches/non_occurrence_indicator.rs NonOccurrenceIndicator
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
/// a StaircaseTimer as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct StaircaseTimer { _o: () }
impl Instrument for StaircaseTimer { uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) { unimplemented!() } }
//@impl src/instruments/switches/staircase_timer.rs StaircaseTimer
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == self, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures r.instrument == self, r.modify_update is KeepAsIs, (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b),
//@ fn adapter
    ensures r.instrument == self, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end
