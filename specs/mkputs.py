#!/usr/bin/env python3
"""Writes puts_tree.inc: the contracts of the four kinds of components that put other components into a snapshot."""
L = '''//@ loop {k} before
    {first}
    let ghost vx_t{k} = vx_t;
//@ loop {k} attr
    #[verifier::loop_isolation(false)]
//@ loop {k}
    invariant $it.seq().len() == self.{f}@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.{f}@[j],
        vx_t{k}.len() > 0 && vx_t.len() == vx_t{k}.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t{k}.len() ==> #[trigger] vx_t[j] == vx_t{k}[j],
        forall|j: int| #![trigger self.{f}@[j]] 0 <= j < $it.index() ==> {puts}(self.{f}@[j], vx_t[vx_t{k}.len() - 1 + j], vx_t[vx_t{k}.len() + j], $2),
        grows(old($1).items@, $1.items@),
'''
def comp(ty, file, last, gens, header, opts, vecs, rec, show, attr):
    low = {'Panel': 'panel', 'Cockpit': 'cockpit', 'TelemetryProcessor': 'processor', 'ProcessorMount': 'mount'}[ty]
    g = '<L: PartialEq>' if gens else ''
    g0 = '<L>' if gens else ''
    t = ty + g0
    dec = (lambda n: f' decreases a, {n}int') if rec else (lambda n: '')
    out = []
    out.append(f'''//@impl {file} {ty} : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> {{ view_of(self.title) }}
    open spec fn de(&self) -> Option<Seq<char>> {{ view_of(self.description) }}
//@ fn title
//@ fn description
//@end
/// a {low} with a name appends one nested snapshot that holds what it would append directly without a name
pub open spec fn {low}_puts{g}(a: {t}, pre: Items, post: Items, d: bool) -> bool{dec(3)} {{
    match a.name {{ None => {low}_values(a, pre, post, d), Some(n) => exists|l: Snapshot| #[trigger] nested(pre, post, n, l) && {low}_values(a, Seq::empty(), l.items@, d) }}
}}
/// what a {low} puts, as found at one reading of the clock
pub open spec fn {low}_values{g}(a: {t}, pre: Items, post: Items, d: bool) -> bool{dec(2)} {{ exists|now: Instant| #[trigger] vx_is_now(now) && {low}_at(a, pre, post, d, now) }}
pub open spec fn {low}_at{g}(a: {t}, pre: Items, post: Items, d: bool, now: Instant) -> bool{dec(1)} {{
    let m = with_flags(described(pre, Seq::empty(), view_of(a.title), view_of(a.description), d), a.max_inactivity_duration, {show}, active(a.max_inactivity_duration, a.{last}, now));
    // no values at all while inactive
    if !active(a.max_inactivity_duration, a.{last}, now) {{ post == m }} else {{ exists|t: Seq<Items>| #[trigger] trace(m, t, post, {low}_parts(a)) && {low}_shown(a, t, d) }}
}}''')
    parts = ' + '.join([f'one(a.{o})' for o in opts] + [f'a.{v}@.len()' for v in vecs])
    out.append(f'pub open spec fn {low}_parts{g0}(a: {t}) -> int {{ {parts if opts else parts} }}'.replace('-> int { a.', '-> int { 0int + a.'))
    lines = []
    off = '0'
    for o in opts:
        lines.append(f'    &&& opt_puts(a.{o}, t, {off}, d)')
        off = f'one(a.{o})' if off == '0' else off + f' + one(a.{o})'
    for v in vecs:
        if v == 'panels' or v == 'cockpits':
            f = 'panel_puts' if v == 'panels' else 'cockpit_puts'
            lines.append(f'    &&& forall|j: int| #![trigger a.{v}@[j]] 0 <= j < a.{v}@.len() ==> {f}(a.{v}@[j], t[{off} + j], t[{off} + j + 1], d)')
        else:
            lines.append(f'    &&& vec_puts(a.{v}@, t, {off}, d)')
        off = (f'a.{v}@.len() as int' if off == '0' else off + f' + a.{v}@.len()')
    out.append(f'/// all parts put their values one after the other\npub open spec fn {low}_shown{g}(a: {t}, t: Seq<Items>, d: bool) -> bool{dec(0)} {{\n' + '\n'.join(lines) + '\n}')
    out.append(f'''//@impl {file} {ty}
//@ fn put_values_into_snapshot
    ensures {low}_values(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
''' + ('//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)]\n' if attr else '') + f'''//@ start
    proof {{ ax_string(); ax_some_now(); }}
    let ghost mut vx_t: Seq<Items> = Seq::empty();
//@ subst __a.put_snapshot(__b, __c) => ({{ proof {{ if vx_t.len() == 0 {{ vx_t = seq![$1.items@]; }} }} __a.put_snapshot(__b, __c); proof {{ vx_t = vx_t.push($1.items@); }} }})
//@ onreturn
    proof {{ assert({low}_values(*self, old($1).items@, $1.items@, $2)); }}
//@ endfn
    proof {{
        let p = with_flags(described(old($1).items@, Seq::empty(), view_of(self.title), view_of(self.description), $2), self.max_inactivity_duration, {show.replace('a.', 'self.')}, true);
        assert(trace(p, vx_t, $1.items@, {low}_parts(*self)));
        assert({low}_shown(*self, vx_t, $2));
        let now = choose|now: Instant| #[trigger] vx_is_now(now) && active(self.max_inactivity_duration, self.{last}, now);
        assert(vx_is_now(now) && active(self.max_inactivity_duration, self.{last}, now));
        assert({low}_at(*self, old($1).items@, $1.items@, $2, now));
    }}''')
    for k, v in enumerate(vecs):
        puts = {'panels': 'panel_puts', 'cockpits': 'cockpit_puts', 'handlers': 'VxHandler::<L>::puts', 'snapshooters': 'VxSnapshooter::puts', 'processors': 'VxProcessor::puts'}[v]
        first = 'proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } ' + (''.join(f' assert(vx_t.len() == 1 + {o}); ' for o in [' + '.join(f'one(self.{x})' for x in opts)] if opts) + ''.join(f'assert(opt_puts(self.{x}, vx_t, 0{"".join(f" + one(self.{y})" for y in opts[:i])}, $2)); ' for i, x in enumerate(opts))) + '}' if k == 0 else ''
        out.append(L.format(k=k, f=v, puts=puts, first=first).replace('    \n', '').rstrip('\n'))
    out.append(f'''//@end
//@impl {file} {ty} : PutsSnapshot
{header}//@ fn put_snapshot
''' + ('' if 'header' not in header else f'''    ensures {low}_puts(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
''') + ('//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)]\n' if attr else '') + f'''//@ endfn
    proof {{ if self.name is Some {{ assert(nested(old($1).items@, $1.items@, self.name.unwrap(), $1.items@.last().1->Snapshot_0)); }} }}
//@end''')
    return '\n'.join(out)
LH = '//@ header impl<L: %sEq + Send + \'static> %s<L>\n'
a = [comp('Panel', 'src/instruments/panel.rs', 'last_update', True, LH % ('', 'Panel'), ['counter', 'gauge', 'meter', 'histogram'], ['panels', 'snapshooters', 'handlers'], True, 'a.show_activity_state', True),
     comp('Cockpit', 'src/cockpit.rs', 'last_activity_at', True, LH % ('Clone + ', 'Cockpit'), [], ['panels', 'handlers', 'snapshooters'], False, 'a.show_activity_state', True),
     comp('TelemetryProcessor', 'src/processor.rs', 'last_activity_at', True, LH % ('Clone + ', 'TelemetryProcessor'), [], ['cockpits', 'handlers', 'snapshooters'], False, 'a.show_activity_state', True)]
m = comp('ProcessorMount', 'src/processor.rs', 'last_activity_at', False, '//@ add\n    open spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool { mount_puts(a, pre, post, d) }\n', [], ['processors', 'snapshooters'], False, 'true', False)
import os
d = os.path.dirname(os.path.abspath(__file__))
H = '//@owner C17 C24\n// generated by mkputs.py\n'
open(d + '/puts_tree.inc', 'w').write(H + '\n'.join(a) + '\n//@owner -\n')
open(d + '/puts_mount.inc', 'w').write(H + m + '\n//@owner -\n')
