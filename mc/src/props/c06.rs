//! C06: references resolve to exactly the declared entity.
use crate::common::{format, formats_to, options, parse, parses_to, rejected, round_trip};
use crate::engine::{Case, Ctx, Radix, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;
use crate::pools::{POSITIONS, place, read};
use substrait_explain::extensions::ExtensionRegistry;

const NAMES: [&str; 7] = ["f", "f:", "f:i64", "f:i64_i64", "ff", "ff:i64", "g_1:u!t_str"];
const TNAMES: [&str; 4] = ["t", "tt", "t_", "i64x"];

fn base(n: &str) -> &str {
    n.split(':').next().unwrap()
}

/// Declarations from a word over (name, urn) pairs, anchors in some order.
fn declared(word: &[usize], names: &[&str], order: usize) -> Vec<(u32, u32, String)> {
    let anchors: [u32; 4] = [[1, 2, 3, 4], [9, 3, 1, 2], [2, 0, 4_000_000_000, 1]][order % 3];
    word.iter()
        .enumerate()
        .map(|(k, w)| (anchors[k], 1 + (w % 2) as u32, names[w / 2].to_string()))
        .collect()
}

fn urns() -> Vec<(u32, String)> {
    vec![(1, "urn:one".into()), (2, "urn:two".into())]
}

/// The model's resolution: the name (and anchor, if written) must leave one
/// candidate, and a written URN anchor must then be that candidate's.
fn resolve(decls: &[(u32, u32, String)], name: &str, anchor: Option<u32>, urn: Option<u32>, functions: bool) -> Option<u32> {
    let fits = |d: &&(u32, u32, String)| {
        let n = if !functions || name.contains(':') { d.2 == name } else { base(&d.2) == name };
        n && anchor.is_none_or(|a| a == d.0)
    };
    let c: Vec<_> = decls.iter().filter(fits).collect();
    match c.as_slice() {
        [one] if urn.is_none_or(|u| u == one.1) => Some(one.0),
        _ => None,
    }
}

fn calls(e: &Ex) -> Doc {
    Doc { version: None, env: Env::default(), tops: vec![Top::Rel(rel(Op::Filter(e.clone()), vec![read(1)]))] }
}

fn check_resolution(case: &mut Case, env: &Env, text: &str, doc: Option<Doc>, reg: &ExtensionRegistry) {
    let whole = format!("{}=== Plan\n{text}\n", env.text("  "));
    match doc {
        Some(mut d) => {
            d.env = env.clone();
            case.state(&whole);
            if parses_to(case, &whole, &d.proto(), reg) {
                case.outcome("resolved");
            }
        }
        None => {
            rejected(case, &whole, "no single declaration fits the reference", reg);
        }
    }
}

pub fn run(ctx: &Ctx) {
    crate::words::references(ctx);
    let reg = registry();
    let max = ctx.pick(3, 4);
    let n = NAMES.len() as u64 * 2;
    let total = seq_count(n, max);
    // Every list of function declarations: each is written so that it comes back.
    ctx.space("function-environments", total * 3, |i, case| {
        let mut r = Radix(i);
        let order = r.take(3);
        let word = seq_decode(r.0, n);
        let fns = declared(&word, &NAMES, order);
        let env = Env { urns: urns(), fns: fns.clone(), types: vec![], vars: vec![] };
        let es: Vec<Ex> = fns.iter().map(|f| Ex::Call(f.0, vec![Ex::Ref(0)], simple("i64"))).collect();
        if es.is_empty() {
            return;
        }
        let tops = vec![
            Top::Rel(rel(Op::Project(es.clone()), vec![read(1)])),
            Top::Rel(rel(
                Op::Agg(vec![], vec![vec![]], fns.iter().map(|f| (f.0, vec![], simple("i64"))).collect()),
                vec![rel(Op::Filter(Ex::Call(fns[0].0, es, simple("boolean"))), vec![read(1)])],
            )),
        ];
        let d = Doc { version: None, env, tops };
        round_trip(case, &d, &reg);
        // With anchors always shown, it comes back too.
        let o = Opts { anchors: Vis::Always, ..Opts::default() };
        let (text, plan) = (d.text(&o), d.proto());
        case.state(&text);
        formats_to(case, &plan, &text, &o, &reg);
        parses_to(case, &text, &plan, &reg);
    });
    // Every way of writing a reference, against every list of declarations.
    let names: Vec<&str> = NAMES.iter().copied().chain(["h", "f:i32", "ff:", "g_1"]).collect();
    let small = seq_count(n, ctx.pick(2, 3));
    let forms = names.len() as u64 * 6 * 4;
    ctx.space("function-references", small * 2, |i, case| {
        let mut r = Radix(i);
        let order = r.take(2);
        let fns = declared(&seq_decode(r.0, n), &NAMES, order);
        let env = Env { urns: urns(), fns: fns.clone(), types: vec![], vars: vec![] };
        for k in 0..forms {
            let mut r = Radix(k);
            let name = *r.pick(&names);
            let anchor = [None, Some(1), Some(2), Some(3), Some(9), Some(7)][r.take(6)];
            let urn = [None, Some(1), Some(2), Some(3)][r.take(4)];
            let mut t = name.to_string();
            if let Some(a) = anchor {
                t += &format!("#{a}");
            }
            if let Some(u) = urn {
                t += &format!("@{u}");
            }
            let want = resolve(&fns, name, anchor, urn, true);
            match k % 3 {
                0 => {
                    let d = want.map(|a| {
                        let mut d = calls(&Ex::Call(a, vec![Ex::Ref(0), int(1)], simple("i64")));
                        d.tops.push(Top::Rel(read(1)));
                        d
                    });
                    check_resolution(case, &env, &format!("Filter[{t}($0, 1):i64 => $0]\n  Read[t => c0:i64]\n\nRead[t => c0:i64]"), d, &reg);
                }
                1 => {
                    let d = want.map(|a| Doc {
                        tops: vec![Top::Rel(rel(Op::Agg(vec![], vec![vec![]], vec![(a, vec![Ex::Ref(0)], simple("i8"))]), vec![read(1)]))],
                        ..Doc::default()
                    });
                    check_resolution(case, &env, &format!("Aggregate[_ => {t}($0):i8]\n  Read[t => c0:i64]"), d, &reg);
                }
                _ => {
                    let d = want.map(|a| calls(&Ex::If(vec![(Ex::Call(a, vec![], simple("i64")), int(1))], Box::new(int(2)))));
                    check_resolution(case, &env, &format!("Filter[if_then({t}():i64 -> 1, _ -> 2) => $0]\n  Read[t => c0:i64]"), d, &reg);
                }
            }
        }
    });
    // Two anchors for the same URN stay two anchors.
    ctx.space("same-urns", 4 * 4 * 3 * 2, |i, case| {
        let mut r = Radix(i);
        let (at, urn, anchor, fun) = (1 + r.take(4) as u32, r.take(4) as u32, r.take(3), r.take(2) == 1);
        let us = (1..5).map(|a| (a, ["urn:one", "urn:one", "urn:two", "urn:one"][a as usize - 1].to_string())).collect();
        let d = vec![(7, at, "f".to_string())];
        let env = Env { urns: us, fns: if fun { d.clone() } else { vec![] }, types: if fun { vec![] } else { d }, vars: vec![] };
        let t = format!("f{}{}", ["", "#7", "#8"][anchor], if urn == 0 { String::new() } else { format!("@{urn}") });
        let good = anchor < 2 && (urn == 0 || urn == at);
        if fun {
            let doc = good.then(|| calls(&Ex::Call(7, vec![], simple("i64"))));
            check_resolution(case, &env, &format!("Filter[{t}():i64 => $0]\n  Read[t => c0:i64]"), doc, &reg);
        } else {
            let doc = good.then(|| Doc { tops: vec![Top::Rel(rel(Op::Read(vec!["t".into()], vec![("c".into(), udt(7, vec![]))]), vec![]))], ..Doc::default() });
            check_resolution(case, &env, &format!("Read[t => c:{t}]"), doc, &reg);
        }
    });
    // User-defined types.
    let tn = TNAMES.len() as u64 * 2;
    ctx.space("type-environments", seq_count(tn, max) * 3, |i, case| {
        let mut r = Radix(i);
        let order = r.take(3);
        let types = declared(&seq_decode(r.0, tn), &TNAMES, order);
        // A function and a variation that share names and anchors with the types.
        let other: Vec<_> = types.iter().map(|t| (t.0, 2, "t".to_string())).collect();
        let env = Env { urns: urns(), types: types.clone(), fns: other.clone(), vars: other };
        let cols = types
            .iter()
            .enumerate()
            .map(|(k, t)| (format!("c{k}"), udt(t.0, if k == 1 { vec![udt(types[0].0, vec![]).nullable()] } else { vec![] }).with_null(k == 2)))
            .collect();
        let d = Doc { version: None, env, tops: vec![Top::Rel(rel(Op::Read(vec!["t".into()], cols), vec![]))] };
        round_trip(case, &d, &reg);
        let o = Opts { anchors: Vis::Always, ..Opts::default() };
        let (text, plan) = (d.text(&o), d.proto());
        case.state(&text);
        formats_to(case, &plan, &text, &o, &reg);
        parses_to(case, &text, &plan, &reg);
    });
    let tnames: Vec<&str> = TNAMES.iter().copied().chain(["x", "T"]).collect();
    let tforms = tnames.len() as u64 * 6 * 4 * 2;
    ctx.space("type-references", seq_count(tn, ctx.pick(2, 3)) * 2, |i, case| {
        let mut r = Radix(i);
        let order = r.take(2);
        let types = declared(&seq_decode(r.0, tn), &TNAMES, order);
        let env = Env { urns: urns(), types: types.clone(), fns: vec![], vars: vec![] };
        for k in 0..tforms {
            let mut r = Radix(k);
            let name = *r.pick(&tnames);
            let anchor = [None, Some(1), Some(2), Some(3), Some(9), Some(7)][r.take(6)];
            let urn = [None, Some(1), Some(2), Some(3)][r.take(4)];
            let prefix = ["", "u!"][r.take(2)];
            let mut t = format!("{prefix}{name}");
            if let Some(a) = anchor {
                t += &format!("#{a}");
            }
            if let Some(u) = urn {
                t += &format!("@{u}");
            }
            let want = resolve(&types, name, anchor, urn, false);
            let (text, ty) = match k % 3 {
                0 => (t, want.map(|a| udt(a, vec![]))),
                1 => (format!("list<{t}?>"), want.map(|a| list(udt(a, vec![]).nullable()))),
                _ => (format!("{t}?<i64>"), want.map(|a| udt(a, vec![simple("i64")]).nullable())),
            };
            let d = ty.map(|ty| Doc {
                tops: vec![Top::Rel(rel(Op::Read(vec!["t".into()], vec![("c".into(), ty)]), vec![]))],
                ..Doc::default()
            });
            check_resolution(case, &env, &format!("Read[t => c:{text}]"), d, &reg);
        }
    });
    // User-defined types whose names are, or nearly are, those of built-in types.
    let mut bn: Vec<String> = SIMPLE.iter().map(|s| s.to_string()).collect();
    for c in ["list", "map", "struct", "precisiontimestamptz", "precisiontimestamp", "precisiontime", "interval_day"] {
        bn.extend([c.to_string(), c.to_uppercase(), format!("{}{}", c[..1].to_uppercase(), &c[1..])]);
    }
    bn.extend(["I64", "Date", "lists", "i640", "i64_", "datetime", "timestamp_t", "u", "time_", "decimal", "varchar", "any"].map(String::from));
    ctx.space("builtin-named-types", bn.len() as u64 * 5 * 2 * 2 * 4, |i, case| {
        let mut r = Radix(i);
        let name = r.pick(&bn).clone();
        let ps = match r.take(5) {
            0 => vec![],
            1 => vec![simple("i64")],
            2 => vec![list(simple("string").nullable())],
            3 => vec![simple("i64"), simple("string")],
            _ => vec![udt(3, vec![])],
        };
        let null = r.take(2) == 1;
        let twice = r.take(2) == 1;
        let mut types = vec![(3, 1, name.clone())];
        if twice {
            types.push((5, 2, name.clone()));
        }
        let spot = r.take(4);
        let env = Env { urns: urns(), types, fns: vec![(1, 1, "f".into())], vars: vec![] };
        let ty = udt(3, ps).with_null(null);
        let op = match spot {
            0 => rel(Op::Read(vec!["t".into()], vec![("c".into(), ty)]), vec![]),
            1 => rel(Op::Read(vec!["t".into()], vec![("c".into(), list(ty))]), vec![]),
            2 => rel(Op::Filter(Ex::Cast(Box::new(Ex::Ref(0)), 0, ty)), vec![read(1)]),
            _ => rel(Op::Filter(Ex::Call(1, vec![Ex::Ref(0)], ty)), vec![read(1)]),
        };
        let plan = Doc { version: None, env, tops: vec![Top::Rel(op)] }.proto();
        for anchors in [Vis::Required, Vis::Always] {
            let o = Opts { anchors, ..Opts::default() };
            let Some((text, errs)) = format(case, &plan, &options(&o), &reg, &name) else { return };
            case.state(&text);
            case.trace();
            if !errs.is_empty() {
                return case.fail("reported", &format!("errors reported: {errs:?}"), &text);
            }
            if !parses_to(case, &text, &plan, &reg) {
                return;
            }
        }
        case.outcome("same type");
    });
    // References with nothing declared, and declarations of the other kinds only.
    ctx.space("wrong-kind", 6 * 4, |i, case| {
        let mut r = Radix(i);
        let t = ["f", "f#1", "f#1@1", "f@1", "f:i64", "f#2"][r.take(6)];
        let d = (1u32, 1u32, "f".to_string());
        let env = match r.take(4) {
            0 => Env::default(),
            1 => Env { urns: urns(), types: vec![d], ..Env::default() },
            2 => Env { urns: urns(), vars: vec![d], ..Env::default() },
            _ => Env { urns: urns(), ..Env::default() },
        };
        check_resolution(case, &env, &format!("Filter[{t}():i64 => $0]\n  Read[t => c0:i64]"), None, &reg);
        let env = match i / 6 {
            1 => Env { urns: urns(), fns: vec![(1, 1, "f".into())], ..Env::default() },
            2 => Env { urns: urns(), vars: vec![(1, 1, "f".into())], ..Env::default() },
            _ => Env::default(),
        };
        if !t.contains(':') {
            check_resolution(case, &env, &format!("Read[t => c:{t}]"), None, &reg);
        }
    });
    crate::sweeps::run(ctx, crate::sweeps::DECLARATIONS, ctx.pick(150, 700), ctx.pick(1025, 4097), &reg);
    look_alikes(ctx, &reg);
    // Anchors of every magnitude; out-of-range ones are refused.
    let anchors: Vec<u64> = (0..34).flat_map(|b| [(1u64 << b) - 1, 1 << b, (1 << b) + 1]).collect();
    ctx.space("anchor-magnitudes", anchors.len() as u64, |i, case| {
        let a = anchors[i as usize];
        let text = |s: String| format!("=== Extensions\nURNs:\n  @1: u\nFunctions:\n  #{a} @1: f\n  #7777 @1: f\n=== Plan\nFilter[{s}():i64 => $0]\n  Read[t => c0:i64]\n");
        if let Ok(x) = u32::try_from(a) {
            let env = Env { urns: vec![(1, "u".into())], fns: vec![(x, 1, "f".into()), (7777, 1, "f".into())], ..Env::default() };
            let d = Doc { env, ..calls(&Ex::Call(x, vec![], simple("i64"))) };
            let t = text(format!("f#{a}"));
            case.state(&t);
            parses_to(case, &t, &d.proto(), &reg);
            round_trip(case, &d, &reg);
        } else {
            rejected(case, &text("f#7777".into()), "the anchor does not fit", &reg);
        }
        // A reference with an anchor that was never declared.
        let t = format!("=== Extensions\nURNs:\n  @1: u\nFunctions:\n  #5 @1: f\n=== Plan\nFilter[f#{a}():i64 => $0]\n  Read[t => c0:i64]\n");
        if a != 5 {
            rejected(case, &t, "the anchor is not declared", &reg);
        }
        let _ = parse(case, &t, &reg);
    });
    ctx.assume("a URN anchor in a reference is checked against the declaration chosen by name and anchor, as GRAMMAR.md documents; it does not by itself choose between declarations of the same name");
}

/// Names that begin like, or are, other words of the format.
pub const LOOK_ALIKES: [&str; 58] = [
    "null", "nullif", "null_", "null1", "nulls", "true", "truex", "true_", "true1", "false", "falsey", "false_", "if", "if_", "if_then", "if_thenx", "if_then_",
    "ifthen", "list", "listx", "list_", "i64", "i64x", "i8", "fp64", "boolean", "string", "date", "interval_day", "precisiontimestamp", "u", "e", "E1", "e5", "inf",
    "nan", "NaN", "Infinity", "x1", "n", "limit", "offset", "filter", "post_filter", "Read", "Root", "Filter", "Enh", "Ext", "Opt", "AscNullsFirst", "Inner", "T",
    "Z", "d", "and", "add", "a",
];

fn look_alikes(ctx: &Ctx, reg: &ExtensionRegistry) {
    let sigs = ["", ":", ":i64", ":any_any"];
    let homes = (POSITIONS.len() * 6 + 6 * 5) as u64;
    ctx.space("look-alike-functions", LOOK_ALIKES.len() as u64 * 4 * 3 * homes, |i, case| {
        let mut r = Radix(i);
        let name = *r.pick(&LOOK_ALIKES);
        let sig = *r.pick(&sigs);
        let full = format!("{name}{sig}");
        let mut fns = vec![(1, 1, full.clone())];
        match r.take(3) {
            0 => {}
            // An overload, and a namesake elsewhere.
            1 => fns.push((2, 1, format!("{name}:i8_i8"))),
            _ => fns.push((2, 2, full)),
        }
        let call = |args| Ex::Call(1, args, simple("i64"));
        let home = r.0 as usize;
        let e = call(if home % 2 == 0 { vec![] } else { vec![Ex::Ref(0)] });
        let doc = if home < POSITIONS.len() * 6 {
            let e = match home % 6 {
                0 | 1 => e,
                2 => call(vec![e, call(vec![])]),
                3 => Ex::Cast(Box::new(e), 2, simple("i8")),
                4 => Ex::If(vec![(e.clone(), e.clone())], Box::new(e)),
                _ => call(vec![Ex::If(vec![(Ex::Ref(1), int(1))], Box::new(e))]),
            };
            place(&e, home / 6)
        } else {
            let k = home - POSITIONS.len() * 6;
            let a = Arg::Ex(e.clone());
            let args = match k % 5 {
                0 => Args { pos: vec![a.clone(), Arg::Null, a], ..Args::default() },
                1 => Args { named: vec![("a".into(), a)], ..Args::default() },
                2 => Args { pos: vec![Arg::Tuple(vec![a.clone()]), Arg::Tuple(vec![Arg::Bool(true), a])], ..Args::default() },
                3 if k / 5 < 3 => Args { cols: vec![Col::Ex(e), Col::Named("a".into(), simple("i64"))], ..Args::default() },
                _ => Args { pos: vec![Arg::Bool(false), a], ..Args::default() },
            };
            Some(super::c14::place(Pay { id: 0, args }, k / 5))
        };
        let Some(mut d) = doc else { return };
        // The other functions the position itself calls.
        let mut env = crate::pools::env();
        env.fns.retain(|f| f.0 > 2 && base(&f.2) != name);
        fns.extend(env.fns);
        d.env = Env { fns, ..env };
        round_trip(case, &d, reg);
    });
    ctx.space("look-alike-types", LOOK_ALIKES.len() as u64 * 2 * 4 * 3, |i, case| {
        let mut r = Radix(i);
        let name = *r.pick(&LOOK_ALIKES);
        // Those are written otherwise (see builtin-named-types).
        if ["i64", "i8", "fp64", "boolean", "string", "date", "interval_day", "precisiontimestamp", "list"].contains(&name) {
            return;
        }
        let mut types = vec![(7, 1, name.to_string())];
        if r.take(2) == 1 {
            types.push((8, 2, name.to_string()));
        }
        let t = udt(7, vec![]);
        let t = match r.take(4) {
            0 => t,
            1 => t.nullable(),
            2 => list(t),
            _ => list(list(t.nullable())).nullable(),
        };
        let d = match r.take(3) {
            0 => Doc { version: None, env: Env::default(), tops: vec![Top::Rel(rel(Op::Read(vec!["t".into()], vec![("a".into(), t.clone()), ("b".into(), t)]), vec![]))] },
            1 => calls(&Ex::Cast(Box::new(Ex::Ref(0)), 1, t)),
            _ => calls(&Ex::Call(1, vec![Ex::Ref(0)], t)),
        };
        let env = Env { urns: urns(), fns: vec![(1, 1, "f".into())], types, vars: vec![] };
        round_trip(case, &Doc { env, ..d }, reg);
    });
}
