//! C21: events, storage items and ink! tests are accepted iff they obey the ink! rules.
use super::c07::contract;
use super::{info, Info};
use crate::common::*;
use crate::rules::*;
use crate::util::*;

const VIS: [&str; 5] = ["pub ", "", "pub(crate) ", "pub(super) ", "pub(in crate) "];
const GEN: [&str; 5] = ["", "<T>", "<'a>", "<const N: usize>", "<T: Copy, 'a>"];
/// Field attributes: (text, violation).
const FIELD: [(&str, Option<&str>); 13] = [
    ("", None),
    ("#[ink(topic)] ", None),
    ("/// doc\n ", None),
    ("#[ink(topic)] #[doc = \"x\"] ", None),
    ("#[serde(x)] ", None),
    ("#[cfg(test)] ", Some("cfg")),
    ("#[cfg(feature = \"x\")] #[ink(topic)] ", Some("cfg")),
    ("#[ink(message)] ", Some("other ink! attribute")),
    ("#[ink(event)] ", Some("other ink! attribute")),
    ("#[ink::event] ", Some("other ink! attribute")),
    ("#[ink(topic)] #[ink(topic)] ", Some("repeated topic")),
    ("#[ink(topic, payable)] ", Some("conflicting argument")),
    ("#[ink(topic = 1)] ", Some("topic with a value")),
];
/// Event attribute forms: (text, legal in V4, legal in V5, legacy form).
const FORMS: [(&str, bool, bool, bool); 20] = [
    ("#[ink(event)]", true, true, true),
    ("#[ink(event, anonymous)]", true, true, true),
    ("#[ink(event)] #[ink(anonymous)]", true, true, true),
    ("#[ink(event, signature_topic = \"SIG\")]", false, true, true),
    ("#[ink(event)] #[ink(signature_topic = \"SIG\")]", false, true, true),
    ("#[ink(event, anonymous, signature_topic = \"SIG\")]", false, false, true),
    ("#[ink(event)] #[ink(anonymous)] #[ink(signature_topic = \"SIG\")]", false, false, true),
    ("#[ink(anonymous)]", false, false, true),
    ("#[ink(anonymous, event)]", false, false, true),
    ("#[ink(event, topic)]", false, false, true),
    ("#[ink(event, event)]", false, false, true),
    ("#[ink(event)] #[ink(event)]", false, false, true),
    ("#[ink::event]", false, true, false),
    ("#[ink::event()]", false, true, false),
    ("#[ink::event(anonymous)]", false, true, false),
    ("#[ink::event(signature_topic = \"SIG\")]", false, true, false),
    ("#[ink::event(anonymous, signature_topic = \"SIG\")]", false, false, false),
    ("#[ink::event(anonymous, anonymous)]", false, false, false),
    ("#[ink::event] #[ink(anonymous)]", false, false, false),
    ("#[ink::event] #[ink::event]", false, false, false),
];
const SIG: &str = "1111111111111111111111111111111111111111111111111111111111111111";

fn form(k: usize) -> String {
    FORMS[k].0.replace("SIG", SIG)
}
fn form_ok(k: usize, v: Version) -> bool {
    if v == Version::V4 { FORMS[k].1 } else { FORMS[k].2 }
}

fn place(legacy: bool, item: &str) -> String {
    if legacy { contract(item) } else { format!("struct Before;\n{item}\nstruct After;\n") }
}

fn events(ctx: &Ctx) {
    // Shapes.
    ctx.explore("event-shapes", product(&[2, FORMS.len(), VIS.len(), GEN.len(), FIELD.len(), FIELD.len(), 3]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (f, vi, g, a, b, s) = (d.take(FORMS.len()), d.take(VIS.len()), d.take(GEN.len()), d.take(FIELD.len()), d.take(FIELD.len()), d.take(3));
        if ctx.quick() && (!form_ok(f, v)) as u8 + (vi != 0) as u8 + (g != 0) as u8 + FIELD[a].1.is_some() as u8 + FIELD[b].1.is_some() as u8 + (s != 0) as u8 > 2 {
            return;
        }
        let mut viols: Vec<Viol> = vec![];
        if !form_ok(f, v) {
            viols.push(("event attributes", 0));
        }
        if vi != 0 {
            viols.push(("event visibility", 0));
        }
        if g != 0 {
            viols.push(("generic event", 0));
        }
        let fields = match s {
            0 => format!(" {{ «{}a: u8», «{}b: [u8; 4]» }}", FIELD[a].0, FIELD[b].0),
            1 => format!("(«{}u8», «{}[u8; 4]»);", FIELD[a].0, FIELD[b].0),
            _ => ";".to_string(),
        };
        if s != 2 {
            for (k, x) in [a, b].into_iter().enumerate() {
                if let Some(w) = FIELD[x].1 {
                    viols.push((w, k + 1));
                }
            }
        } else if a != 0 || b != 0 {
            return;
        }
        if s == 1 && (a != 0 || b != 0) {
            // Attributes on the fields of tuple structs are left unspecified.
            return;
        }
        if !FORMS[f].0.contains("event") {
            // Not an event at all: only the stray attribute itself is a violation.
            viols = vec![("event attributes", 0)];
        }
        // The whole item may be blamed for its attributes.
        let item = format!("«{}\n{}struct Ev{}{fields}»", form(f), VIS[vi], GEN[g]);
        if FORMS[f].0 == "#[ink(anonymous)]" && v == Version::V4 && ctx.quick() && a + b > 0 {
            return;
        }
        judge(c, &place(FORMS[f].3, &item), v, &viols);
    });
    // Attribute lists of one field among several.
    const ATTRS: [(&str, Option<&str>); 6] = [("#[ink(topic)]", None), ("#[doc = \"x\"]", None), ("/// y\n", None), ("#[cfg(feature = \"z\")]", Some("cfg")), ("#[allow(unused)]", None), ("#[ink(message)]", Some("other ink! attribute"))];
    let k = ATTRS.len() as u64;
    ctx.explore("field-attributes", 2 * 2 * 4 * seq_count(k, ctx.pick(4, 5)), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let standalone = d.take(2) == 1;
        let at = d.take(4);
        let seq = seq_decode(d.0, k);
        if seq.iter().filter(|x| **x == 0).count() > 1 || seq.iter().filter(|x| **x == 5).count() > 1 || seq.contains(&0) && seq.contains(&5) || standalone && v == Version::V4 {
            return;
        }
        let viols: Vec<Viol> = seq.iter().filter_map(|x| ATTRS[*x].1).map(|w| (w, 0)).collect();
        let list = seq.iter().map(|x| ATTRS[*x].0).collect::<Vec<_>>().join(" ");
        let fields: Vec<String> = (0..4).map(|n| if n == at { format!("«{list} f{n}: u8»") } else { format!("f{n}: u8") }).collect();
        let item = format!("{}\npub struct Ev {{ {} }}", if standalone { "#[ink::event]" } else { "#[ink(event)]" }, fields.join(", "));
        judge(c, &place(!standalone, &item), v, &viols);
    });
    // Item kinds.
    let items = ["pub enum Ev { A }", "pub union Ev { a: u8 }", "pub fn ev() {}", "pub mod ev {}", "pub trait Ev {}", "impl Ev {}", "pub type Ev = u8;", "pub const EV: u8 = 1;", "use a::b;", "pub static EV: u8 = 1;", "macro_rules! ev { () => {} }"];
    ctx.explore("event-items", product(&[2, FORMS.len(), items.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let f = d.take(FORMS.len());
        let it = *d.pick(&items);
        judge(c, &place(FORMS[f].3, &format!("«{}\n{it}»", form(f))), v, &[("event on a non-struct", 0)]);
    });
    // Placement: (template, legal for the legacy form, legal for the standalone form).
    let places: [(&str, bool, bool); 9] = [
        ("CONTRACT", true, true),
        ("%", false, true),
        ("mod m { % }", false, true),
        ("mod m { mod n { % } }", false, true),
        ("CONTRACT mod", false, true),
        ("CONTRACT impl", false, false),
        ("CONTRACT fn", false, true),
        ("fn f() { % }", false, true),
        ("#[ink::test] fn f() { % }", false, true),
    ];
    ctx.explore("event-placement", product(&[2, FORMS.len(), places.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let f = d.take(FORMS.len());
        let (p, legacy, standalone) = places[d.take(places.len())];
        if p == "CONTRACT impl" && !FORMS[f].3 || p.contains("ink::test") && !FORMS[f].3 {
            // What the standalone form means inside other ink! items is decided by C24.
            return;
        }
        let item = format!("{} pub struct Ev {{ #[ink(topic)] a: u8 }}", form(f));
        let src = match p {
            "CONTRACT" => contract(&format!("«{item}»")),
            "CONTRACT mod" => contract(&format!("«mod m {{ {item} }}»")),
            "CONTRACT fn" => contract(&format!("«fn x() {{ {item} }}»")),
            "CONTRACT impl" => contract(&format!("impl S {{ «#[ink(message)] pub fn z(&self) {{ {item} }}» }}")),
            _ => format!("«{}»", p.replace('%', &item)),
        };
        let ok = form_ok(f, v) && if FORMS[f].3 { legacy } else { standalone };
        judge(c, &src, v, if ok { &[] } else { &[("event placement or attributes", 0)] });
    });
    // Topics outside events.
    let tops = ["pub struct Q { #[ink(topic)] a: u8 }", "pub struct Q(#[ink(topic)] u8);", "#[ink(topic)] pub struct Q;", "#[ink(topic)] fn q() {}", "pub enum Q { #[ink(topic)] A }", "pub enum Q { A { #[ink(topic)] a: u8 } }", "mod q { #[ink(topic)] const A: u8 = 1; }", "fn q(#[ink(topic)] a: u8) {}"];
    ctx.explore("stray-topics", product(&[2, tops.len(), 2]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let t = *d.pick(&tops);
        let src = if d.take(2) == 1 { contract(&format!("«{t}»")) } else { format!("«{t}»") };
        judge(c, &src, v, &[("topic outside an event", 0)]);
    });
}

fn storage_items(ctx: &Ctx) {
    let attrs: [(&str, bool); 7] = [("#[ink::storage_item]", true), ("#[ink::storage_item()]", true), ("#[ink::storage_item(derive = true)]", true), ("#[ink::storage_item(derive = false)]", true), ("#[ink::storage_item(derive)]", false), ("#[ink::storage_item(derive = 1)]", false), ("#[ink::storage_item] #[ink::storage_item]", false)];
    let items: [(&str, bool); 20] = [
        ("struct I;", true),
        ("pub struct I { a: u8 }", true),
        ("struct I<T>(T);", true),
        ("pub(crate) struct I<'a> { a: &'a u8 }", true),
        ("enum I { A, B(u8) }", true),
        ("pub enum I<T> { A(T) }", true),
        ("union I { a: u8 }", true),
        ("fn i() {}", false),
        ("mod i {}", false),
        ("trait I {}", false),
        ("impl I {}", false),
        ("type I = u8;", false),
        ("const I: u8 = 1;", false),
        ("static I: u8 = 1;", false),
        ("use a::I;", false),
        ("struct I { #[ink(topic)] a: u8 }", false),
        ("struct I { #[ink(storage)] a: u8 }", false),
        ("enum I { #[ink(message)] A }", false),
        ("enum I { A { #[ink::test] a: u8 } }", false),
        ("struct I { #[cfg(x)] a: u8 }", true),
    ];
    let places = ["%", "mod m { % }", "CONTRACT", "fn f() { % }", "CONTRACT mod", "mod m { mod n { struct Z; % } }"];
    ctx.explore("storage-items", product(&[2, attrs.len(), items.len(), places.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (a, aok) = *d.pick(&attrs);
        let (it, iok) = *d.pick(&items);
        let p = *d.pick(&places);
        let item = format!("«{a}\n{it}»");
        let src = match p {
            "CONTRACT" => contract(&item),
            "CONTRACT mod" => contract(&format!("mod m {{ {item} }}")),
            _ => p.replace('%', &item),
        };
        judge(c, &src, v, if aok && iok { &[] } else { &[("storage item", 0)] });
    });
}

fn tests(ctx: &Ctx) {
    // (attribute, legal in V4, legal in V5)
    let attrs: [(&str, bool, bool); 14] = [
        ("#[ink::test]", true, true),
        ("#[ink::test()]", true, true),
        ("#[ink_e2e::test]", true, true),
        ("#[ink_e2e::test(environment = crate::E)]", true, true),
        ("#[ink_e2e::test(environment = ink::env::DefaultEnvironment)]", true, true),
        ("#[ink_e2e::test(environment = crate::Nope)]", false, false),
        ("#[ink_e2e::test(additional_contracts = \"a/Cargo.toml\")]", true, false),
        ("#[ink_e2e::test(keep_attr = \"x\")]", true, false),
        ("#[ink_e2e::test(backend(node))]", false, true),
        ("#[ink_e2e::test(backend(runtime_only), environment = crate::E)]", false, true),
        ("#[ink::test] #[ink::test]", false, false),
        ("#[ink::test] #[ink_e2e::test]", false, false),
        ("#[ink::test(environment = crate::E)]", false, false),
        ("#[ink::test] #[ink(message)]", false, false),
    ];
    let items: [(&str, bool); 14] = [
        ("fn t() {}", true),
        ("pub fn t() {}", true),
        ("async fn t(mut client: ink_e2e::Client<C, E>) -> Result<(), ()> { Ok(()) }", true),
        ("fn t<T>() {}", true),
        ("unsafe extern \"C\" fn t() {}", true),
        ("struct T;", false),
        ("enum T { A }", false),
        ("mod t {}", false),
        ("trait T {}", false),
        ("impl T {}", false),
        ("const T: u8 = 1;", false),
        ("type T = u8;", false),
        ("use a::b;", false),
        ("static T: u8 = 1;", false),
    ];
    let places = ["%", "mod m { % }", "#[cfg(test)] mod tests { use super::*; % }", "CONTRACT", "CONTRACT mod", "CONTRACT tests"];
    ctx.explore("ink-tests", product(&[2, attrs.len(), items.len(), places.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (a, v4, v5) = attrs[d.take(attrs.len())];
        let (it, iok) = *d.pick(&items);
        let p = *d.pick(&places);
        let item = format!("«{a}\n{it}»");
        let src = match p {
            "CONTRACT" => contract(&item),
            "CONTRACT mod" => contract(&format!("mod m {{ {item} }}")),
            "CONTRACT tests" => contract(&format!("#[cfg(test)] mod tests {{ use super::*; #[ink::test] fn other() {{}} {item} }}")),
            _ => p.replace('%', &item),
        };
        let ok = iok && if v == Version::V4 { v4 } else { v5 };
        judge(c, &format!("pub struct E; impl ink::env::Environment for E {{}}\n{src}"), v, if ok { &[] } else { &[("ink! test", 0)] });
    });
}

pub fn run(ctx: &Ctx) -> Info {
    events(ctx);
    storage_items(ctx);
    tests(ctx);
    info(
        format!("product of {} attribute forms x visibility x generics x two fields' attributes x struct shape ({}); every item kind and placement for each form; storage items and tests: attributes x item kinds x placements", FORMS.len(), ctx.pick("at most 2 deviations", "full")),
        &["the rule model is written from the ink! 4/5 language rules"],
    )
}
