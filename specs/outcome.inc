//@owner C16 C17 C25
//@item src/processor.rs struct ProcessingOutcome
pub open spec fn nothing(r: ProcessingOutcome) -> bool { r.processed == 0 && r.dropped == 0 && r.instruments_updated == 0 && r.observations_enqueued == 0 }
pub open spec fn sum_of(a: ProcessingOutcome, b: ProcessingOutcome, r: ProcessingOutcome) -> bool { r.processed == a.processed + b.processed && r.dropped == a.dropped + b.dropped && r.instruments_updated == a.instruments_updated + b.instruments_updated && r.observations_enqueued == a.observations_enqueued + b.observations_enqueued }
//@impl src/processor.rs ProcessingOutcome
//@ fn something_happened
    ensures r == (self.processed > 0 || self.dropped > 0),
//@end
//@impl src/processor.rs ProcessingOutcome : Default
//@ header impl ProcessingOutcome
//@ fn default
    ensures nothing(r),
//@end
//@owner -
