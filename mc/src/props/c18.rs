//! C18: declarations are kept exactly, and conflicts are refused.
use std::collections::BTreeMap;

use crate::common::{bytes, diff, format, parse, parses_to, rejected, round_trip};
use crate::engine::{Case, Ctx, Radix, guarded, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;
use crate::pools::read;
use substrait::proto::Plan;
use substrait::proto::extensions::simple_extension_declaration::{
    ExtensionFunction, ExtensionType, ExtensionTypeVariation, MappingType,
};
use substrait::proto::extensions::{SimpleExtensionDeclaration, SimpleExtensionUrn};
use substrait_explain::OutputOptions;
use substrait_explain::extensions::simple::{ExtensionKind, MissingReference};
use substrait_explain::extensions::{ExtensionRegistry, InsertError, SimpleExtensions};

/// One declaration: of a URN (kind 0), function, type or type variation.
#[derive(Clone, Debug, PartialEq)]
struct Decl {
    kind: usize,
    anchor: u32,
    urn: u32,
    name: String,
}

const HEADS: [&str; 4] = ["URNs:", "Functions:", "Types:", "Type Variations:"];

impl Decl {
    fn line(&self) -> String {
        if self.kind == 0 {
            format!("@{:>3}: {}", self.anchor, self.name)
        } else {
            format!("#{:>3} @{:>3}: {}", self.anchor, self.urn, self.name)
        }
    }
}

/// What a list of declarations amounts to: those kept, in order, and those in
/// conflict with an earlier one or dangling.
#[derive(Default)]
struct Model {
    urns: BTreeMap<u32, String>,
    exts: BTreeMap<(u32, usize), (u32, String)>,
    /// Problem declarations, by position.
    bad: Vec<usize>,
    /// An URN is declared, but only after its use.
    late: bool,
}

fn stored(d: &Decl) -> &str {
    match d.kind {
        2 => d.name.strip_prefix("u!").unwrap_or(&d.name),
        _ => &d.name,
    }
}

/// `urns_first`: a plan message lists its URNs apart from the rest.
fn model(ds: &[Decl], urns_first: bool) -> Model {
    let mut m = Model::default();
    if urns_first {
        for d in ds.iter().filter(|d| d.kind == 0) {
            m.urns.entry(d.anchor).or_insert_with(|| d.name.clone());
        }
    }
    let mut seen = vec![];
    for (i, d) in ds.iter().enumerate() {
        if d.kind == 0 {
            if seen.contains(&d.anchor) {
                m.bad.push(i);
            }
            seen.push(d.anchor);
            m.urns.entry(d.anchor).or_insert_with(|| d.name.clone());
            continue;
        }
        let invalid = d.kind != 2 && d.name.starts_with("u!");
        let dangling = !m.urns.contains_key(&d.urn);
        let dup = !invalid && m.exts.contains_key(&(d.anchor, d.kind));
        if invalid || dangling || dup {
            m.bad.push(i);
        }
        if dangling && ds[i..].iter().any(|x| x.kind == 0 && x.anchor == d.urn) {
            m.late = true;
        }
        if !invalid && !dup {
            m.exts.insert((d.anchor, d.kind), (d.urn, stored(d).to_string()));
        }
    }
    m
}

fn env(m: &Model) -> Env {
    let list = |k: usize| {
        m.exts
            .iter()
            .filter(|((_, kind), _)| *kind == k)
            .map(|((a, _), (u, n))| (*a, *u, n.clone()))
            .collect()
    };
    Env {
        urns: m.urns.iter().map(|(a, u)| (*a, u.clone())).collect(),
        fns: list(1),
        types: list(2),
        vars: list(3),
    }
}

fn doc(m: &Model) -> Doc {
    Doc {
        version: None,
        env: env(m),
        tops: vec![Top::Rel(read(1))],
    }
}

/// The declarations in the order given, each run of one kind under its head.
fn text(ds: &[Decl]) -> String {
    let mut s = String::from("=== Extensions\n");
    let mut now = 9;
    for d in ds {
        if d.kind != now {
            s += HEADS[d.kind];
            s.push('\n');
            now = d.kind;
        }
        s += "  ";
        s += &d.line();
        s.push('\n');
    }
    s + "\n"
}

fn proto(d: &Decl) -> SimpleExtensionDeclaration {
    let (u, a, n) = (d.urn, d.anchor, d.name.clone());
    let m = match d.kind {
        1 => MappingType::ExtensionFunction(ExtensionFunction {
            extension_urn_reference: u,
            function_anchor: a,
            name: n,
        }),
        2 => MappingType::ExtensionType(ExtensionType {
            extension_urn_reference: u,
            type_anchor: a,
            name: n,
        }),
        _ => MappingType::ExtensionTypeVariation(ExtensionTypeVariation {
            extension_urn_reference: u,
            type_variation_anchor: a,
            name: n,
        }),
    };
    SimpleExtensionDeclaration { mapping_type: Some(m) }
}

fn plan(ds: &[Decl]) -> Plan {
    let mut p = doc(&Model::default()).proto();
    for d in ds {
        if d.kind == 0 {
            p.extension_urns.push(SimpleExtensionUrn {
                extension_urn_anchor: d.anchor,
                urn: d.name.clone(),
            });
        } else {
            p.extensions.push(proto(d));
        }
    }
    p
}

/// Reading: accepted exactly when there is no conflict, and then every
/// declaration is in the plan.
fn reading(case: &mut Case, ds: &[Decl], reg: &ExtensionRegistry) {
    let m = model(ds, false);
    let d = doc(&m);
    let body = d.text(&Opts::default());
    let body = &body[body.find("=== Plan").expect("plan")..];
    let t = format!("{}{body}", text(ds));
    if m.bad.is_empty() {
        case.state(&t);
        if parses_to(case, &t, &d.proto(), reg) {
            case.outcome("read");
        }
    } else if m.late && model(ds, true).bad.is_empty() {
        // Declared after its use: refused, or understood.
        case.state(&t);
        let want = doc(&model(ds, true)).proto();
        match parse(case, &t, reg) {
            Some(Ok(p)) if bytes(&p) != bytes(&want) => case.fail("other-plan", &diff(&format!("{p:?}"), &format!("{want:?}")), &t),
            _ => case.outcome("late"),
        }
        case.trace();
    } else {
        rejected(case, &t, "its declarations conflict", reg);
    }
}

/// Writing: every declaration once, under its own head; each problem reported.
fn writing(case: &mut Case, ds: &[Decl], o: &OutputOptions, reg: &ExtensionRegistry) {
    let m = model(ds, true);
    let p = plan(ds);
    let input = format!("{ds:?}");
    case.state(&input);
    let Some((t, errs)) = format(case, &p, o, reg, &input) else { return };
    case.trace();
    let want = doc(&m).text(&Opts::default());
    if m.bad.is_empty() {
        if t != want || !errs.is_empty() {
            return case.fail("other-text", &format!("{} errors: {errs:?}", diff(&t, &want)), &input);
        }
        // Read back, it is the same set of declarations.
        parses_to(case, &t, &doc(&m).proto(), reg);
        return case.outcome("written");
    }
    case.outcome("reported");
    if errs.len() < m.bad.len() {
        return case.fail("unreported", &format!("{} problems, but errors: {errs:?}", m.bad.len()), &input);
    }
    for i in &m.bad {
        let d = &ds[*i];
        let about = |e: &String| e.contains(stored(d)) && (e.contains(&d.anchor.to_string()) || d.name.starts_with("u!"));
        if !errs.iter().map(|e| e.to_string()).any(|e| about(&e)) {
            return case.fail("unreported", &format!("nothing about {d:?} in {errs:?}"), &input);
        }
    }
    // What has no problem is shown, and so are the relations.
    let body = &want[want.find("=== Plan").expect("plan")..];
    if !t.ends_with(body) {
        return case.fail("relations", &diff(&t, &want), &input);
    }
    for (i, d) in ds.iter().enumerate() {
        let mut line = d.clone();
        line.name = stored(d).to_string();
        let line = format!("  {}", line.line());
        // Once within its own part of the section.
        let mut head = "";
        let mut count = 0;
        for l in t.lines() {
            if HEADS.contains(&l) {
                head = l;
            }
            count += (l == line && head == HEADS[d.kind]) as usize;
        }
        if !m.bad.contains(&i) && count != 1 {
            return case.fail("dropped", &format!("{d:?} is shown {count} times in\n{t}"), &input);
        }
    }
}

// The tables themselves, driven directly.

const KINDS: [ExtensionKind; 3] = [ExtensionKind::Function, ExtensionKind::Type, ExtensionKind::TypeVariation];

fn insert(x: &mut SimpleExtensions, d: &Decl) -> Result<(), InsertError> {
    match d.kind {
        0 => x.add_extension_urn(d.name.clone(), d.anchor),
        k => x.add_extension(KINDS[k - 1], d.urn, d.anchor, d.name.clone()),
    }
}

/// Every lookup answers as the model does.
fn lookups(x: &SimpleExtensions, m: &Model, anchors: &[u32], names: &[&str]) -> Result<(), String> {
    let say = |what: &str, got: String| Err(format!("{what}: {got}"));
    if x.is_empty() != (m.urns.is_empty() && m.exts.is_empty()) {
        return say("is_empty", x.is_empty().to_string());
    }
    for a in anchors {
        let got = x.find_urn(*a);
        let want = m.urns.get(a);
        if got.as_ref().ok() != want.map(String::as_str).as_ref() || got.is_err() && got != Err(MissingReference::MissingUrn(*a)) {
            return say(&format!("find_urn({a})"), format!("{got:?}"));
        }
        for (k, kind) in KINDS.into_iter().enumerate() {
            let want = m.exts.get(&(*a, k + 1));
            match (x.find_by_anchor(kind, *a), want) {
                (Ok((u, n)), Some((wu, wn))) if u == *wu && n.full() == wn => {}
                (Err(_), None) => {}
                (got, _) => return say(&format!("find_by_anchor({kind}, {a})"), format!("{got:?}")),
            }
            for n in names {
                let holders = m.exts.iter().filter(|((_, j), (_, x))| *j == k + 1 && x == n).count();
                let got = x.is_name_unique(kind, *a, n);
                match (&got, want) {
                    (Ok(u), Some((_, wn))) if wn == n && *u == (holders == 1) => {}
                    (Err(_), Some((_, wn))) if wn != n => {}
                    (Err(_), None) => {}
                    _ => return say(&format!("is_name_unique({kind}, {a}, {n})"), format!("{got:?}")),
                }
            }
        }
        let want = m.exts.get(&(*a, 1));
        match (x.lookup_function(*a), want) {
            (Err(_), None) => {}
            (Ok(f), Some((u, n))) => {
                let base = n.split(':').next().unwrap_or("");
                let count = |p: &dyn Fn(&str) -> bool| m.exts.iter().filter(|((_, j), (_, x))| *j == 1 && p(x)).count();
                let (full1, base1) = (count(&|x| x == n) == 1, count(&|x| x.split(':').next() == Some(base)) == 1);
                if f.anchor != *a || f.urn != *u || f.name.full() != n || f.base_name_unique != base1 || f.name_unique != full1 {
                    return say(
                        &format!("lookup_function({a})"),
                        format!("{} @{} {} base unique {} name unique {}", f.anchor, f.urn, f.name, f.base_name_unique, f.name_unique),
                    );
                }
            }
            (got, _) => return say(&format!("lookup_function({a})"), format!("found {}", got.is_ok())),
        }
    }
    for n in names {
        for (k, kind) in KINDS.into_iter().enumerate() {
            let holders: Vec<u32> = m.exts.iter().filter(|((_, j), (_, x))| *j == k + 1 && x == n).map(|((a, _), _)| *a).collect();
            match (x.find_by_name(kind, n), holders.as_slice()) {
                (Ok(a), [one]) if a == *one => {}
                (Err(MissingReference::MissingName(..)), []) => {}
                (Err(MissingReference::DuplicateName(..)), [_, _, ..]) => {}
                (got, _) => return say(&format!("find_by_name({kind}, {n})"), format!("{got:?}")),
            }
        }
    }
    let p = doc(m).proto();
    if x.to_extension_urns() != p.extension_urns || x.to_extension_declarations() != p.extensions {
        return say("declarations", format!("{:?} {:?}", x.to_extension_urns(), x.to_extension_declarations()));
    }
    for i in ["", "  ", "\t"] {
        if x.to_string(i).trim_end() != env(m).text(i).trim_end() {
            return say("to_string", diff(&x.to_string(i), &env(m).text(i)));
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    crate::words::declarations(ctx);
    let reg = registry();
    // Every list of declarations over colliding anchors, names, URNs and kinds.
    let mut small: Vec<Decl> = vec![];
    for anchor in [1, 2] {
        for name in ["u:a", "u:b"] {
            small.push(Decl { kind: 0, anchor, urn: 0, name: name.into() });
        }
    }
    for kind in 1..4 {
        for anchor in [1, 2] {
            for urn in [1, 2] {
                for name in ["f", "f:i64"] {
                    if kind == 1 || !name.contains(':') {
                        small.push(Decl { kind, anchor, urn, name: name.into() });
                    }
                }
            }
        }
    }
    let n = small.len() as u64;
    let max = ctx.pick(4, 5);
    ctx.space("texts", seq_count(n, max), |i, case| {
        let ds: Vec<Decl> = seq_decode(i, n).iter().map(|k| small[*k].clone()).collect();
        reading(case, &ds, &reg);
    });
    let default = OutputOptions::default();
    ctx.space("plans", seq_count(n, max), |i, case| {
        let w = seq_decode(i, n);
        // URNs and the rest are separate lists of a plan.
        let mut later = false;
        for k in &w {
            let urn = small[*k].kind == 0;
            if urn && later {
                return;
            }
            later |= !urn;
        }
        let ds: Vec<Decl> = w.iter().map(|k| small[*k].clone()).collect();
        writing(case, &ds, &default, &reg);
    });
    // The tables, after every history of insertions.
    let anchors = [0, 1, 2, 3];
    let names = ["f", "f:i64", "", "g", "u!f"];
    ctx.space("tables", seq_count(n, ctx.pick(4, 5)), |i, case| {
        let ds: Vec<Decl> = seq_decode(i, n).iter().map(|k| small[*k].clone()).collect();
        case.state(&format!("{ds:?}"));
        let r = guarded(|| {
            let mut x = SimpleExtensions::new();
            for (i, d) in ds.iter().enumerate() {
                let got = insert(&mut x, d);
                let m = model(&ds[..=i], false);
                if got.is_err() != m.bad.contains(&i) {
                    return Err(format!("inserting {d:?} gave {got:?}"));
                }
            }
            lookups(&x, &model(&ds, false), &anchors, &names)
        });
        case.step(ds.len() as u64 + 1);
        case.trace();
        match r {
            Ok(Ok(())) => case.outcome("answers"),
            Ok(Err(e)) => case.fail("answers", &e, &format!("{ds:?}")),
            Err(p) => case.fail("panic", &p, &format!("{ds:?}")),
        }
    });
    // Three of a larger alphabet: dangling references, prefixes, wide anchors.
    let mut wide: Vec<Decl> = vec![];
    for kind in 1..4 {
        for anchor in [0, 1, 4_294_967_295] {
            for urn in [1, 1000, 7] {
                for name in ["f", "u!f", "f_2", "f:", "f:any1_i64", "f:u!t"] {
                    if kind == 1 || !name.contains(':') {
                        wide.push(Decl { kind, anchor, urn, name: name.into() });
                    }
                }
            }
        }
    }
    let urns = [
        Decl { kind: 0, anchor: 1, urn: 0, name: "u:a".into() },
        Decl { kind: 0, anchor: 1000, urn: 0, name: "https://x.y/z.yaml#@1:".into() },
    ];
    let n = wide.len() as u64;
    let total = seq_count(n, 3);
    for (name, write) in [("wide-texts", false), ("wide-plans", true)] {
        ctx.space(name, total, |i, case| {
            let mut ds = urns.to_vec();
            ds.extend(seq_decode(i, n).iter().map(|k| wide[*k].clone()));
            if write {
                writing(case, &ds, &default, &reg);
            } else {
                reading(case, &ds, &reg);
            }
        });
    }
    // Every order of one declaration of everything.
    let all: Vec<Decl> = (0..7)
        .map(|i| Decl {
            kind: [0, 0, 1, 1, 2, 2, 3][i],
            anchor: [2, 1, 5, 4, 5, 3, 5][i],
            urn: [0, 0, 1, 2, 2, 1, 2][i],
            name: ["u:b", "u:a", "f", "f", "f", "t", "f"][i].into(),
        })
        .collect();
    ctx.space("orders", 5040 * 2, |i, case| {
        let mut r = Radix(i);
        let write = r.take(2) == 1;
        let mut left = all.clone();
        let mut ds = vec![];
        while !left.is_empty() {
            ds.push(left.remove(r.take(left.len())));
        }
        if write {
            ds.sort_by_key(|d| d.kind != 0);
            writing(case, &ds, &default, &reg);
        } else {
            reading(case, &ds, &reg);
        }
    });
    crate::sweeps::run(ctx, crate::sweeps::DECLARATIONS, ctx.pick(150, 700), ctx.pick(1025, 4097), &reg);
    // Many declarations: every count around the width of the columns.
    ctx.space("many", ctx.pick(260, 1200), |i, case| {
        let step = [1u32, 37, 1001, 3_579_139][i as usize % 4];
        let mut ds: Vec<Decl> = (0..i as u32)
            .map(|k| Decl { kind: 0, anchor: k * step, urn: 0, name: format!("u:{k}") })
            .collect();
        for kind in 1..4 {
            ds.extend((0..i as u32).map(|k| Decl { kind, anchor: k * step, urn: (i as u32 - 1 - k) * step, name: format!("n{k}") }));
        }
        ds.sort_by_key(|d| (d.kind, d.anchor));
        let m = model(&ds, false);
        assert!(m.bad.is_empty());
        round_trip(case, &doc(&m), &reg);
    });
    // URNs and names over the characters special to the section.
    let urn_chars = ['a', ':', '@', '#', '/', '=', '\'', '"', '\\', '\u{e9}', '+', '-'];
    ctx.space("urns", seq_count(12, ctx.pick(4, 5)), |i, case| {
        let u: String = seq_decode(i, 12).iter().map(|k| urn_chars[*k]).collect();
        if u.is_empty() {
            return;
        }
        let ds = [
            Decl { kind: 0, anchor: 3, urn: 0, name: u },
            Decl { kind: 1, anchor: 1, urn: 3, name: "f".into() },
        ];
        round_trip(case, &doc(&model(&ds, false)), &reg);
    });
    // Every Unicode scalar value at the start, in the middle and at the end.
    ctx.space("urn-scalars", 0x110000 / 64, |i, case| {
        for c in (i as u32 * 64..(i as u32 + 1) * 64).filter_map(char::from_u32) {
            if c == '\n' || c == ' ' {
                continue;
            }
            for (k, u) in [format!("urn:a{c}b"), format!("{c}b"), format!("urn:{c}")].into_iter().enumerate() {
                // The ends of a line are not part of its content.
                if k != 0 && c.is_whitespace() {
                    continue;
                }
                let ds = [
                    Decl { kind: 0, anchor: 3, urn: 0, name: u },
                    Decl { kind: 1, anchor: 1, urn: 3, name: "f".into() },
                ];
                round_trip(case, &doc(&model(&ds, false)), &reg);
            }
        }
    });
    // Spellings of the line itself.
    let gaps = ["", " ", "   "];
    let numbers = [("1", Some(1)), ("0", Some(0)), ("4294967295", Some(u32::MAX)), ("4294967296", None), ("-1", None), ("x", None), ("", None)];
    ctx.space("spellings", 81 * 49 * 2, |i, case| {
        let mut r = Radix(i);
        let (a, b) = (*r.pick(&numbers), *r.pick(&numbers));
        let g: Vec<&str> = (0..4).map(|_| *r.pick(&gaps)).collect();
        let good = a.1.zip(b.1);
        let (line, ds) = if r.take(2) == 0 {
            let d = Decl { kind: 1, anchor: a.1.unwrap_or(9), urn: b.1.unwrap_or(9), name: "f".into() };
            let u = Decl { kind: 0, anchor: d.urn, urn: 0, name: "u:a".into() };
            (format!("Functions:\n  #{}{}{}@{}{}{}:{}f", g[0], a.0, g[1], g[2], b.0, g[3], " "), [u, d])
        } else {
            let u = Decl { kind: 0, anchor: b.1.unwrap_or(9), urn: 0, name: "u:a".into() };
            let d = Decl { kind: 2, anchor: a.1.unwrap_or(9), urn: u.anchor, name: "f".into() };
            (format!("Types:\n  #{}{}{}@{}{}{}:{}u!f", g[0], a.0, g[1], g[2], b.0, g[3], g[1]), [u, d])
        };
        let t = format!("=== Extensions\nURNs:\n  @{}{}:{}u:a\n{line}\n=== Plan\nRead[x => ]\n", g[1], b.0, g[2]);
        let mut want = doc(&model(&ds, false));
        want.tops = vec![Top::Rel(rel(Op::Read(vec!["x".into()], vec![]), vec![]))];
        match good {
            Some(_) => {
                case.state(&t);
                parses_to(case, &t, &want.proto(), &reg);
            }
            None => {
                rejected(case, &t, "an anchor is not a 32-bit number", &reg);
            }
        }
    });
    // Names that no declaration of the kind can have.
    let malformed = [
        "f:", "f:i64", "f:i64_i64", "t:u!t", "", "1f", "_f", "f-g", "f g", "f.g", "'f'", "\"f\"", "f:i64:i64", "f:_", "f:i64_", "f:_i64", "f::", ":f", "f: i64",
        "u!", "u!u!f", "u!f:i64", "f:u!", "f:u!u!t", "f?", "f<i64>", "f()", "f#1", "f@1", "\u{e9}", "f\u{e9}", "f,g", "f:i-64", "f:i64__i64",
    ];
    ctx.space("malformed-names", malformed.len() as u64 * 3, |i, case| {
        let mut r = Radix(i);
        let kind = 1 + r.take(3);
        let name = *r.pick(&malformed);
        // What a function signature may look like.
        let signature = ["f:", "f:i64", "f:i64_i64", "t:u!t"].contains(&name);
        if kind == 1 && signature {
            return;
        }
        let ds = [Decl { kind: 0, anchor: 1, urn: 0, name: "u:a".into() }, Decl { kind, anchor: 1, urn: 1, name: name.into() }];
        rejected(case, &format!("{}=== Plan\nRead[t => c:i64]\n", text(&ds)), "the name is malformed", &reg);
    });
    // A declaration without content.
    ctx.space("empty-declaration", 9, |i, case| {
        let mut p = plan(&[
            Decl { kind: 0, anchor: 1, urn: 0, name: "u:a".into() },
            Decl { kind: 1, anchor: 1, urn: 1, name: "f".into() },
            Decl { kind: 2, anchor: 1, urn: 1, name: "t".into() },
        ]);
        let (at, n) = (i as usize % 3, 1 + i as usize / 3);
        for _ in 0..n {
            p.extensions.insert(at, SimpleExtensionDeclaration { mapping_type: None });
        }
        case.state(&format!("{p:?}"));
        let Some((t, errs)) = format(case, &p, &default, &reg, "empty declaration") else { return };
        case.trace();
        if errs.len() < n || !t.contains("#  1 @  1: f\n") || !t.contains("#  1 @  1: t\n") {
            case.fail("unreported", &format!("{errs:?}\n{t}"), &format!("{p:?}"));
        }
    });
}
