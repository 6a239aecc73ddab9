# writes obs.inc (run by hand; the output is committed)
O='src/observation.rs'
out='''// ---- observations, values, items ----
//@item src/observation.rs enum TimeUnit ; #[derive(Clone, Copy)]
//@item src/observation.rs enum ObservedValue ; #[derive(Clone, Copy)]
//@item src/observation.rs enum Observation
//@item src/lib.rs struct Increment
//@item src/lib.rs struct IncrementBy
//@item src/lib.rs struct Decrement
//@item src/lib.rs struct DecrementBy
//@item src/lib.rs struct ChangeBy
//@item src/instruments/mod.rs enum Update
//@item src/instruments/mod.rs struct LabelAndUpdate
//@item src/instruments/mod.rs struct BorrowedLabelAndUpdate
//@item src/snapshot.rs struct Snapshot
//@item src/snapshot.rs enum ItemKind
#[verifier::external_body]
pub fn vx_clone_update(u: &Update) -> (r: Update) ensures r == *u { unimplemented!() }
impl Clone for Update { fn clone(&self) -> (r: Self) ensures r == *self { vx_clone_update(self) } }
'''
def from_impl(owner, ty, src, spec, sub=[], gen='', file=O, imp=None):
    s=f'''impl{gen} vstd::std_specs::convert::FromSpecImpl<{src}> for {ty} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(v: {src}) -> Self {{ {spec} }} }}
//@impl {file} {ty} : From<{imp or src}>
//@ owner {owner}
//@ fn from
//@ flag substs_optional
'''
    for a in sub: s+=f'//@ subst {a}\n'
    return s+'//@end\n'
S='ObservedValue::SignedInteger'; U='ObservedValue::UnsignedInteger'
out+='''/// nanoseconds of a time unit
pub open spec fn per(u: TimeUnit) -> int { match u { TimeUnit::Nanoseconds => 1, TimeUnit::Microseconds => 1_000, TimeUnit::Milliseconds => 1_000_000, TimeUnit::Seconds => 1_000_000_000 } }
pub trait VxFrom<T>: Sized {
    spec fn vx_pre(v: T) -> bool;
    spec fn vx_post(v: T, r: Self) -> bool;
    fn from(v: T) -> (r: Self) requires Self::vx_pre(v) ensures Self::vx_post(v, r);
}
'''
out+='//@if C14 C15 C13 C20 C28\n'
for t in ('i64','i32','i16','i8'): out+=from_impl('C14','ObservedValue',t,f'{S}(v as i64)')
for t in ('u64','u32','u16','u8','usize'): out+=from_impl('C14','ObservedValue',t,f'{U}(v as u64)')
out+=from_impl('C14','ObservedValue','f64','ObservedValue::Float(v)')
out+=from_impl('C14','ObservedValue','bool','ObservedValue::Bool(v)')
out+=from_impl('C13','ObservedValue','(u64, TimeUnit)','ObservedValue::Duration(v.0, v.1)')
out+=from_impl('C14','ObservedValue','Increment','ObservedValue::ChangedBy(1)',imp='super::Increment')
out+=from_impl('C14','ObservedValue','Decrement','ObservedValue::ChangedBy((-1) as i64)',imp='super::Decrement')
out+=from_impl('C14','ObservedValue','IncrementBy','ObservedValue::ChangedBy(v.0 as i64)',imp='super::IncrementBy')
out+=from_impl('C14','ObservedValue','DecrementBy','ObservedValue::ChangedBy((-(v.0 as int)) as i64)',imp='super::DecrementBy')
out+=from_impl('C14','ObservedValue','ChangeBy','ObservedValue::ChangedBy(v.0)',imp='super::ChangeBy')
out+='''
//@if C13
/// what the two conversions below are proved to do, for those that call one of them
impl vstd::std_specs::convert::FromSpecImpl<Duration> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Duration) -> Self { ObservedValue::Duration(v.ns() as u64, TimeUnit::Nanoseconds) } }
impl From<Duration> for ObservedValue { #[verifier::external_body] fn from(v: Duration) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<(Duration, TimeUnit)> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: (Duration, TimeUnit)) -> Self { ObservedValue::Duration((v.0.ns() as int / per(v.1)) as u64, v.1) } }
impl From<(Duration, TimeUnit)> for ObservedValue { #[verifier::external_body] fn from(v: (Duration, TimeUnit)) -> (r: Self) { unimplemented!() } }
//@impl src/observation.rs ObservedValue : From<Duration>
//@ header impl VxFrom<Duration> for ObservedValue
//@ add
    open spec fn vx_pre(v: Duration) -> bool { v.ns() <= u64::MAX }
    open spec fn vx_post(v: Duration, r: Self) -> bool { r == ObservedValue::Duration(v.ns() as u64, TimeUnit::Nanoseconds) }
//@ fn from
//@end
//@impl src/observation.rs ObservedValue : From<(Duration, TimeUnit)>
//@ header impl VxFrom<(Duration, TimeUnit)> for ObservedValue
//@ add
    open spec fn vx_pre(v: (Duration, TimeUnit)) -> bool { v.0.ns() as int / per(v.1) <= u64::MAX }
    open spec fn vx_post(v: (Duration, TimeUnit), r: Self) -> bool { r == ObservedValue::Duration((v.0.ns() as int / per(v.1)) as u64, v.1) }
//@ fn from
//@end
//@fi
//@fi
'''
I='src/snapshot.rs'
kinds=out; out=''
for t in ('u64','u32','u16','u8','usize'): out+=from_impl('C14','ItemKind',t,'ItemKind::UInt(v as u64)',file=I)
for t in ('i64','i32','i16','i8','isize'): out+=from_impl('C14','ItemKind',t,'ItemKind::Int(v as i64)',file=I)
out+=from_impl('C14','ItemKind','f64','ItemKind::Float(v)',file=I)
out+=from_impl('C14','ItemKind','bool','ItemKind::Boolean(v)',file=I)
out+=from_impl('C14','ItemKind','String','ItemKind::Text(v)',file=I)
out+=from_impl('C14','ItemKind','Snapshot','ItemKind::Snapshot(v)',file=I)
open('kinds.inc','w').write(out)
out=kinds+'//@if C14 C24 C03 C04 C05 C06 C07 C17 C18 C19 C20 C21 C22 C23 C28\n//@include kinds.inc\n//@fi\n'
open('obs.inc','w').write(out)
