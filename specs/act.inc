//@owner C17
// ---- construction counts as activity; limits ----
pub open spec fn fresh_panel<L>(r: Panel<L>) -> bool { vx_is_now(r.last_update) && r.max_inactivity_duration is None && r.show_activity_state }
pub open spec fn fresh_cockpit<L>(r: Cockpit<L>) -> bool { vx_is_now(r.last_activity_at) && r.max_inactivity_duration is None && r.show_activity_state }
//@impl src/instruments/panel.rs Panel
//@ fn new
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures fresh_panel(r),
//@ fn named
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)), call_requires(<T as Into<String>>::into, ($2,)),
    ensures fresh_panel(r),
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures fresh_panel(r),
//@ fn accept_named
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)), call_requires(<T as Into<String>>::into, ($2,)),
    ensures fresh_panel(r),
//@ fn accept_all_named
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures fresh_panel(r),
//@ fn accept_all
    ensures fresh_panel(r),
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).name is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).name.unwrap()), *final(self) == (Panel { name: final(self).name, ..*old(self) }),
//@ fn set_title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).title is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).title.unwrap()), *final(self) == (Panel { title: final(self).title, ..*old(self) }),
//@ fn set_description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).description is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).description.unwrap()), *final(self) == (Panel { description: final(self).description, ..*old(self) }),
//@ fn set_inactivity_limit
    ensures *final(self) == (Panel { max_inactivity_duration: Some($1), ..*old(self) }),
//@ fn inactivity_limit
    ensures r == (Panel { max_inactivity_duration: Some($1), ..self }),
//@ fn set_show_activity_state
    ensures *final(self) == (Panel { show_activity_state: $1, ..*old(self) }),
//@ fn show_activity_state
    ensures r == (Panel { show_activity_state: $1, ..self }),
//@end
//@impl src/cockpit.rs Cockpit : Default
//@ header impl<L: Clone + Eq + Send + 'static> Cockpit<L>
//@ fn default
    ensures fresh_cockpit(r),
//@end
//@impl src/cockpit.rs Cockpit
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures fresh_cockpit(r),
//@ fn without_name
    ensures fresh_cockpit(r),
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).name is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).name.unwrap()), *final(self) == (Cockpit { name: final(self).name, ..*old(self) }),
//@ fn set_title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).title is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).title.unwrap()), *final(self) == (Cockpit { title: final(self).title, ..*old(self) }),
//@ fn set_description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).description is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).description.unwrap()), *final(self) == (Cockpit { description: final(self).description, ..*old(self) }),
//@ fn set_inactivity_limit
    ensures *final(self) == (Cockpit { max_inactivity_duration: Some($1), ..*old(self) }),
//@ fn set_show_activity_state
    ensures *final(self) == (Cockpit { show_activity_state: $1, ..*old(self) }),
//@ fn show_activity_state
    ensures r == (Cockpit { show_activity_state: $1, ..self }),
//@end
//@impl src/processor.rs TelemetryProcessor
//@ fn set_inactivity_limit
    ensures *final(self) == (TelemetryProcessor { max_inactivity_duration: Some($1), ..*old(self) }),
//@ fn inactivity_limit
    ensures r == (TelemetryProcessor { max_inactivity_duration: Some($1), ..self }),
//@ fn set_show_activity_state
    ensures *final(self) == (TelemetryProcessor { show_activity_state: $1, ..*old(self) }),
//@ fn show_activity_state
    ensures r == (TelemetryProcessor { show_activity_state: $1, ..self }),
//@end
//@owner -
