#!/usr/bin/env python3
"""Writes routes.inc (every instrument's builders of an InstrumentAdapter) and groutes.inc (the gauge's builders of a GaugeAdapter)."""
INST = [('counter.rs', 'Counter'), ('meter.rs', 'Meter'), ('histogram.rs', 'Histogram'),
        ('other_instruments/value_meter.rs', 'ValueMeter'), ('other_instruments/display.rs', 'DataDisplay'),
        ('other_instruments/last_occurrence_tracker.rs', 'LastOccurrenceTracker'), ('switches/flag.rs', 'Flag'),
        ('switches/occurrence_indicator.rs', 'OccurrenceIndicator'), ('switches/non_occurrence_indicator.rs', 'NonOccurrenceIndicator'),
        ('switches/staircase_timer.rs', 'StaircaseTimer')]
EQ = lambda f, a: f'(vx_eq_ok::<L>() ==> forall|l: L| #[trigger] {f}.acc(l) <==> vx_leq(l, {a}))'
MANY = lambda f, a: f'(vx_eq_ok::<L>() ==> forall|l: L| #[trigger] {f}.acc(l) <==> exists|i: int| 0 <= i < {a}.len() && #[trigger] vx_leq(l, {a}@[i]))'
PRED = lambda f, a, p: f'(vx_total::<L, {p}>({a}) ==> forall|l: L, b: bool| #[trigger] {a}.ensures((&l,), b) ==> {f}.acc(l) == b)'
INTO = lambda f, a, t: f'call_ensures(<{t} as Into<LabelFilter<L>>>::into, ({a},), {f})'
REQ = lambda a, t: f'call_requires(<{t} as Into<LabelFilter<L>>>::into, ({a},))'
out = ['//@ flag substs_optional'] if False else []
for f, ty in INST:
    out.append(f'''/// a {ty} as a whole: what it does with an update is decided elsewhere
#[verifier::external_body] pub struct {ty} {{ _o: () }}
impl Instrument for {ty} {{ uninterp spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool; #[verifier::external_body] fn update(&mut self, with: &Update) -> (r: usize) {{ unimplemented!() }} }}
//@impl src/instruments/{f} {ty}''')
    K = 'r.instrument == self, r.modify_update is KeepAsIs'
    rf = 'r.label_filter'
    out.append(f'''//@ fn accept
    requires {REQ('$1', 'F')},
    ensures {K}, {INTO(rf, '$1', 'F')},
//@ fn for_label
    ensures {K}, {EQ(rf, '$1')},
//@ fn for_labels
    ensures {K}, {MANY(rf, '$1')},
//@ fn for_all_labels
    ensures {K}, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn for_labels_by_predicate
    ensures {K}, {PRED(rf, '$1', 'P')},
//@ fn adapter
    ensures {K}, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@end''')
open(__file__.rsplit('/', 1)[0] + '/routes.inc', 'w').write('\n'.join(out) + '\n')
out = []
K = 'r.gauge == self, r.modify_update is KeepAsIs'
def route(name, variant, gen, conds, req=''):
    pat = 'GaugeUpdateStrategy::' + variant
    out.append(f'//@ fn {name}\n' + (f'    requires {req},\n' if req else '') + f'    ensures {K}, r.strategy matches {pat} && {conds},')
out.append('//@impl src/instruments/gauge/mod.rs Gauge')
route('accept', 'Filter(f)', 'F', INTO('f', '$1', 'F'), REQ('$1', 'F'))
route('for_label', 'Filter(f)', '', EQ('f', '$1'))
route('for_labels', 'Filter(f)', '', MANY('f', '$1'))
route('for_all_labels', 'Filter(f)', '', '(forall|l: L| #[trigger] f.acc(l))')
route('for_labels_by_predicate', 'Filter(f)', '', PRED('f', '$1', 'P'))
route('adapter', 'Filter(f)', '', '(forall|l: L| !(#[trigger] f.acc(l)))')
route('deltas_only', 'DeltasOnly(f)', '', INTO('f', '$1', 'F'), REQ('$1', 'F'))
route('for_label_deltas_only', 'DeltasOnly(f)', '', EQ('f', '$1'))
route('for_labels_deltas_only', 'DeltasOnly(f)', '', MANY('f', '$1'))
route('for_labels_deltas_only_by_predicate', 'DeltasOnly(f)', '', PRED('f', '$1', 'P'))
route('inc_dec_on', 'IncDecOnLabels(i, d)', '', INTO('i', '$1', 'INCR') + ' && ' + INTO('d', '$2', 'DECR'), REQ('$1', 'INCR') + ', ' + REQ('$2', 'DECR'))
route('inc_dec_on_many', 'IncDecOnLabels(i, d)', '', MANY('i', '$1') + ' && ' + MANY('d', '$2'))
route('inc_dec_by_predicates', 'IncDecOnLabels(i, d)', '', PRED('i', '$1', 'PINC') + ' && ' + PRED('d', '$2', 'PDEC'))
out.append('''//@end
//@impl src/instruments/gauge/gauge_adapter.rs GaugeAdapter : From
//@ header impl<L: Clone + Eq + Send + 'static> GaugeAdapter<L>
//@ fn from
    ensures r.gauge == $1, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && forall|l: L| #[trigger] f.acc(l),
//@end''')
open(__file__.rsplit('/', 1)[0] + '/groutes.inc', 'w').write('\n'.join(out) + '\n')

# ---- names, titles and descriptions ----
S = lambda a: f'call_requires(<T as Into<String>>::into, ({a},))'
def setters(ty, file, own, name='String', gens='', fns=('get_name', 'set_name', 'name', 'set_title', 'title', 'set_description', 'description')):
    o = [f'//@impl src/{file} {ty}']
    upd = lambda fld, who: f'*final(self) == ({ty} {{ {fld}: final(self).{fld}, ..*old(self) }})' if who == 'set' else f'r == ({ty} {{ {fld}: r.{fld}, ..self }})'
    for fn in fns:
        if fn == 'get_name':
            o.append('//@ fn get_name\n' + ('    ensures r@ == self.name@,' if name == 'String' else '    ensures named_as(r, self.name),'))
            continue
        st = fn.startswith('set_'); fld = fn[4:] if st else fn
        new = f'final(self).{fld}' if st else f'r.{fld}'
        val = f'call_ensures(<T as Into<String>>::into, ($1,), {new})' if fld == 'name' and name == 'String' else f'{new} is Some, call_ensures(<T as Into<String>>::into, ($1,), {new}.unwrap())'
        o.append(f'//@ fn {fn}\n    requires {S("$1")},\n    ensures {val}, {upd(fld, "set" if st else "by")},')
    o.append('//@end')
    return '\n'.join(o)
def write(name, text): open(__file__.rsplit('/', 1)[0] + '/' + name, 'w').write(text + '\n')
NAME = ('get_name', 'set_name', 'name'); TEXT = ('set_title', 'title', 'set_description', 'description')
for inc, own, tys in [('set_counter.inc', 'C03', [('Counter', 'instruments/counter.rs')]), ('set_gauge.inc', 'C04', [('Gauge', 'instruments/gauge/mod.rs')]),
        ('set_meter.inc', 'C22', [('Meter', 'instruments/meter.rs'), ('ValueMeter', 'instruments/other_instruments/value_meter.rs')]),
        ('set_histogram.inc', 'C23', [('Histogram', 'instruments/histogram.rs')]),
        ('set_switches.inc', 'C18', [('OccurrenceIndicator', 'instruments/switches/occurrence_indicator.rs'), ('NonOccurrenceIndicator', 'instruments/switches/non_occurrence_indicator.rs'), ('StaircaseTimer', 'instruments/switches/staircase_timer.rs')]),
        ('set_flag.inc', 'C19', [('Flag', 'instruments/switches/flag.rs')]), ('set_display.inc', 'C20', [('DataDisplay', 'instruments/other_instruments/display.rs')]),
        ('set_tracker.inc', 'C21', [('LastOccurrenceTracker', 'instruments/other_instruments/last_occurrence_tracker.rs')])]:
    write(inc, f'//@owner {own} C24\n' + '\n'.join(setters(t, f, own, fns=NAME) for t, f in tys) + '\n//@if C24\n//@owner C24\n' + '\n'.join(setters(t, f, own, fns=TEXT) for t, f in tys) + '\n//@fi\n//@owner -')

# ---- building panels, cockpits and processors ----
INS = lambda x: f'call_requires(<{x} as Into<String>>::into, '
F0 = 'r.counter is None, r.gauge is None, r.meter is None, r.histogram is None, r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None'
FREQ = 'call_requires(<F as Into<LabelFilter<L>>>::into, ($1,))'; FENS = 'call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter)'
def nreq(a): return f'call_requires(<T as Into<String>>::into, ({a},))'
def nens(a): return f'r.name is Some, call_ensures(<T as Into<String>>::into, ({a},), r.name.unwrap())'
o = ['''//@owner C02 C10 C24
//@impl src/instruments/panel.rs Panel''']
o.append(f'//@ fn new\n    requires {FREQ},\n    ensures {FENS}, r.name is None, {F0},')
o.append(f'//@ fn named\n    requires {FREQ}, {nreq("$2")},\n    ensures {FENS}, {nens("$2")}, {F0},')
o.append(f'//@ fn accept\n    requires {FREQ},\n    ensures {FENS}, r.name is None, {F0},')
o.append(f'//@ fn accept_named\n    requires {FREQ}, {nreq("$2")},\n    ensures {FENS}, {nens("$2")}, {F0},')
o.append(f'//@ fn accept_all_named\n    requires {nreq("$1")},\n    ensures forall|l: L| #[trigger] r.label_filter.acc(l), {nens("$1")}, {F0},')
o.append(f'//@ fn accept_all\n    ensures forall|l: L| #[trigger] r.label_filter.acc(l), r.name is None, {F0},')
o.append('//@end')
C0 = 'r.panels@.len() == 0, r.handlers@.len() == 0, r.snapshooters@.len() == 0, r.title is None, r.description is None'
o.append(f'''//@impl src/cockpit.rs Cockpit : Default
//@ header impl<L: Clone + Eq + Send + 'static> Cockpit<L>
//@ fn default
    ensures r.name is None, {C0},
//@end
//@impl src/cockpit.rs Cockpit
//@ fn new
    requires {nreq("$1")},
    ensures {nens("$1")}, {C0},
//@ fn without_name
    ensures r.name is None, {C0},
//@end
//@owner C02
//@impl src/instruments/panel.rs Panel
//@ fn add_handler
    ensures final(self).handlers@ == old(self).handlers@.push(vx_boxed($1)), *final(self) == (Panel {{ handlers: final(self).handlers, ..*old(self) }}),
//@ fn handler
    ensures r.handlers@ == self.handlers@.push(vx_boxed($1)), r == (Panel {{ handlers: r.handlers, ..self }}),
//@ fn add_instrument
    ensures exists|x: InstrumentAdapter<L, I>| #[trigger] adapts(x, $1) && final(self).handlers@ == old(self).handlers@.push(vx_boxed(x)), *final(self) == (Panel {{ handlers: final(self).handlers, ..*old(self) }}),
//@ fn instrument
    ensures exists|x: InstrumentAdapter<L, T>| #[trigger] adapts(x, $1) && r.handlers@ == self.handlers@.push(vx_boxed(x)), r == (Panel {{ handlers: r.handlers, ..self }}),
//@ fn add_panel
    ensures final(self).panels@ == old(self).panels@.push($1), *final(self) == (Panel {{ panels: final(self).panels, ..*old(self) }}),
//@ fn panel
    ensures r.panels@ == self.panels@.push($1), r == (Panel {{ panels: r.panels, ..self }}),''')
for fn, ty in [('counter', 'InstrumentAdapter<L, Counter>'), ('gauge', 'GaugeAdapter<L>'), ('meter', 'InstrumentAdapter<L, Meter>'), ('histogram', 'InstrumentAdapter<L, Histogram>')]:
    for st in (True, False):
        a, b = ('*old(self)', '*final(self)') if st else ('self', 'r')
        af, bf = ('old(self)', 'final(self)') if st else ('self', 'r')
        o.append(f'''//@ fn {"add_" if st else ""}{fn}
    requires call_requires(<I as Into<{ty}>>::into, ($1,)),
    ensures exists|x: {ty}| #[trigger] call_ensures(<I as Into<{ty}>>::into, ($1,), x) && {b} == (if {af}.{fn} is None {{ Panel {{ {fn}: Some(x), ..{a} }} }} else {{ Panel {{ handlers: {bf}.handlers, ..{a} }} }})
        && ({af}.{fn} is Some ==> {bf}.handlers@ == {af}.handlers@.push(vx_boxed(x))),''')
o.append('//@end')
for ty, f in [('Cockpit', 'cockpit.rs'), ('TelemetryProcessor', 'processor.rs')]:
    o.append(f'''//@impl src/{f} {ty}
//@ fn add_handler
    ensures final(self).handlers@ == old(self).handlers@.push(vx_boxed($1)), *final(self) == ({ty} {{ handlers: final(self).handlers, ..*old(self) }}),
//@ fn handler
    ensures r.handlers@ == self.handlers@.push(vx_boxed($1)), r == ({ty} {{ handlers: r.handlers, ..self }}),
//@end''')
o.append('//@owner C16')
for ty, f in [('Panel', 'instruments/panel.rs'), ('Cockpit', 'cockpit.rs'), ('TelemetryProcessor', 'processor.rs')]:
    o.append(f'''//@impl src/{f} {ty}
//@ fn add_snapshooter
    ensures final(self).snapshooters@ == old(self).snapshooters@.push(vx_boxed_s($1)), *final(self) == ({ty} {{ snapshooters: final(self).snapshooters, ..*old(self) }}),
//@ fn snapshooter
    ensures r.snapshooters@ == self.snapshooters@.push(vx_boxed_s($1)), r == ({ty} {{ snapshooters: r.snapshooters, ..self }}),
//@end''')
o.append('//@owner C24 C10')
o.append(setters('Panel', 'instruments/panel.rs', '', name='Option', fns=('set_name', 'set_title', 'set_description')))
o.append(setters('Cockpit', 'cockpit.rs', '', name='Option', fns=('set_name', 'set_title', 'set_description')))
o.append(setters('TelemetryProcessor', 'processor.rs', '', name='Option', fns=('get_name', 'set_name')))
o.append('//@owner -')
write('parts.inc', '\n'.join(o))
