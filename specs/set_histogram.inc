//@owner C23 C24
//@impl src/instruments/histogram.rs Histogram
//@ fn get_name
    ensures r@ == self.name@,
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures call_ensures(<T as Into<String>>::into, ($1,), final(self).name), *final(self) == (Histogram { name: final(self).name, ..*old(self) }),
//@ fn name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures call_ensures(<T as Into<String>>::into, ($1,), r.name), r == (Histogram { name: r.name, ..self }),
//@end
//@if C24
//@owner C24
//@impl src/instruments/histogram.rs Histogram
//@ fn set_title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).title is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).title.unwrap()), *final(self) == (Histogram { title: final(self).title, ..*old(self) }),
//@ fn title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.title is Some, call_ensures(<T as Into<String>>::into, ($1,), r.title.unwrap()), r == (Histogram { title: r.title, ..self }),
//@ fn set_description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).description is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).description.unwrap()), *final(self) == (Histogram { description: final(self).description, ..*old(self) }),
//@ fn description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.description is Some, call_ensures(<T as Into<String>>::into, ($1,), r.description.unwrap()), r == (Histogram { description: r.description, ..self }),
//@end
//@fi
//@owner -
