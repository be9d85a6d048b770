//! C04: types round-trip at every position.
use crate::common::{bytes, format, options, parse, rejected, round_trip, show};
use crate::engine::{Ctx, Radix};
use crate::ext::registry;
use crate::model::*;
use crate::pools::*;
use substrait::proto;
use substrait::proto::r#type as pt;
use substrait_explain::extensions::ExtensionRegistry;

const SPOTS: usize = 8;

fn place_type(t: &Ty, spot: usize) -> Option<Doc> {
    let t = t.clone();
    Some(match spot {
        0 => doc1(rel(Op::Read(vec!["t".into()], vec![("a".into(), t)]), vec![])),
        1 => {
            let c = vec![("a".into(), simple("i64")), ("b".into(), t), ("c d".into(), simple("date"))];
            doc1(rel(Op::Read(vec!["t".into()], c), vec![]))
        }
        2 => place(&Ex::Cast(Box::new(Ex::Ref(0)), 0, t), 0)?,
        3 => place(&Ex::Cast(Box::new(int(1)), 1, t), 10)?,
        4 => place(&Ex::Call(1, vec![Ex::Ref(0)], t), 5)?,
        5 => doc1(rel(
            Op::Agg(vec![], vec![vec![]], vec![(11, vec![Ex::Ref(0)], t), (3, vec![], simple("i64"))]),
            vec![read(1)],
        )),
        6 => {
            if !t.null {
                return None;
            }
            place(&Ex::Lit(null_lit(t)), 0)?
        }
        _ => doc1(rel(
            Op::ExtLeaf(Pay {
                id: 0,
                args: Args {
                    pos: vec![Arg::Ex(Ex::Call(1, vec![], t.clone()))],
                    named: vec![],
                    cols: vec![Col::Named("x".into(), t), Col::Ex(Ex::Ref(0))],
                },
            }),
            vec![],
        )),
    })
}

pub fn run(ctx: &Ctx) {
    crate::words::types(ctx);
    crate::words::types_everywhere(ctx);
    let reg = registry();
    let flat = flat_types();
    let l1 = wrap_types(&flat);
    let l2 = wrap_types(&l1);
    let l3 = wrap_types(&l2.iter().step_by(ctx.pick(13, 1)).cloned().collect::<Vec<_>>());
    for (name, pool) in [("flat", &flat), ("depth1", &l1), ("depth2", &l2)] {
        ctx.space(&format!("{name}-types-everywhere"), (pool.len() * SPOTS) as u64, |i, case| {
            let mut r = Radix(i);
            let spot = r.take(SPOTS);
            if let Some(d) = place_type(&pool[r.0 as usize], spot) {
                round_trip(case, &d, &reg);
            }
        });
    }
    ctx.space("depth3-types-rotating", l3.len() as u64, |i, case| {
        for s in [i as usize % SPOTS, (i as usize / 3 + 1) % SPOTS] {
            if let Some(d) = place_type(&l3[i as usize], s) {
                round_trip(case, &d, &reg);
            }
        }
    });
    // Nullability at every level of a chain, all combinations.
    let depth = ctx.pick(7u32, 10);
    ctx.space("nullability-per-level", (2u64.pow(depth)) * 3, |i, case| {
        let mut r = Radix(i);
        let kind = r.take(3);
        let mut t = simple("i32").with_null(r.take(2) == 1);
        for _ in 1..depth {
            let null = r.take(2) == 1;
            t = match kind {
                0 => list(t),
                1 => udt(1, vec![t]),
                _ => udt(3, vec![t.clone(), list(simple("string").nullable())]),
            }
            .with_null(null);
        }
        for s in [0, 2, 4] {
            round_trip(case, &place_type(&t, s).unwrap(), &reg);
        }
    });
    // Parameter lists of every length, and every precision.
    let n = ctx.pick(40, 150);
    ctx.space("parameter-count", n as u64 + 1, |i, case| {
        let ps: Vec<Ty> = (0..i as usize).map(|k| flat[k * 7 % flat.len()].clone()).collect();
        for s in 0..SPOTS {
            if let Some(d) = place_type(&udt(2, ps.clone()).nullable(), s) {
                round_trip(case, &d, &reg);
            }
        }
    });
    crate::sweeps::run(ctx, crate::sweeps::TYPES, ctx.pick(300, 700), ctx.pick(1025, 4097), &reg);
    ctx.space("every-precision", 13 * 4 * 2 * SPOTS as u64, |i, case| {
        let mut r = Radix(i);
        let s = r.take(SPOTS);
        let p = r.take(13) as i32;
        let k = [K::Pts(p), K::PtsTz(p), K::Ptime(p), K::IDay(p)][r.take(4)].clone();
        let t = Ty { k, null: r.take(2) == 1 };
        if let Some(d) = place_type(&t, s) {
            round_trip(case, &d, &reg);
        }
    });
    // Pairs of types side by side.
    let some: Vec<Ty> = flat.iter().cloned().chain(few_types()).collect();
    let m = some.len();
    ctx.space("type-pairs", (m * m) as u64, |i, case| {
        let mut r = Radix(i);
        let (a, b) = (r.pick(&some).clone(), r.pick(&some).clone());
        let c = vec![("a".into(), a.clone()), ("b".into(), b.clone())];
        round_trip(case, &doc1(rel(Op::Read(vec!["t".into()], c), vec![])), &reg);
        let e = Ex::Cast(Box::new(Ex::Cast(Box::new(Ex::Ref(0)), 0, a)), 2, b);
        round_trip(case, &place(&e, 0).unwrap(), &reg);
    });

    // Malformed and unsupported spellings are errors, at every position.
    let mut bad: Vec<String> = [
        "", "?", "I64", "int", "i65", "i64??", "i64?!", "i64<>", "i64<1>", "i64[x]", "string<10>",
        "list", "list<>", "list<i64", "list<i64>>", "list<i64,i64>", "list<i64, i64>", "list<1>", "list<a>", "list<i64>?",
        "map<i64, i64>", "map<i64>", "struct<i64>", "struct<>", "struct",
        "varchar<10>", "fixedchar<5>", "fixedbinary<5>", "decimal<10, 2>", "decimal<10,2>",
        "precisiontimestamp", "precisiontimestamp<>", "precisiontimestamp<13>", "precisiontimestamp<-1>",
        "precisiontimestamp<6>?", "precisiontimestamp<i64>", "precisiontimestamp<99999999999>", "precisiontimestamp<6, 6>",
        "precisiontimestamptz<13>", "precisiontimestamptz<-1>", "precisiontimestamptz<4294967302>",
        "precisiontime<13>", "precisiontime<-3>", "precisiontime<2147483648>",
        "interval_day<13>", "interval_day<-1>", "interval_day", "interval_day<a>", "interval_year<1>", "interval_compound<3>",
        "u!nosuch", "nosuch", "nosuch#1", "json#2", "json#9", "json#1@2", "json#1@9", "json#99999999999", "json#-1",
        "geo_point", "u!geo_point?", "u!u!json", "json##1", "json#", "json@", "json#1@", "json[1]", "json<", "json<i64", "json<i64,>",
        "json<1>", "json<nosuch>", "json<list<nosuch>>", "list<json<nosuch>>", "list<decimal<1,2>>", "list<map<i64, i64>>",
        "boolean_", "boolean1", "i640", "timestamp_t", "datetime", "times", "uuid4",
        "$0", "1", "'i64'", "\"i64\"", "null", "true", "!{type}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for s in SIMPLE {
        bad.push(format!("{s}_x"));
        bad.push(s.to_uppercase());
        bad.push(s[..s.len() - 1].to_string() + "_");
    }
    bad.retain(|b| b != "i_" && b != "time_");
    bad.sort();
    bad.dedup();
    let pre = env().text("  ");
    let forms = [
        "Read[t => a:{}]\n",
        "Read[t => a:i64, b:{}, c:i64]\n",
        "Read:Virtual[_ => a:{}]\n",
        "Filter[($0)::{} => $0]\n  Read[t => a:i64]\n",
        "Filter[($0)::?{} => $0]\n  Read[t => a:i64]\n",
        "Filter[add#1($0):{} => $0]\n  Read[t => a:i64]\n",
        "Filter[null:{} => $0]\n  Read[t => a:i64]\n",
        "Aggregate[_ => count():{}]\n  Read[t => a:i64]\n",
        "Read[t => a:list<{}>]\n",
        "Read[t => a:json<i64, {}>]\n",
        "ExtensionLeaf:RecA[_ => a:{}]\n",
        "ExtensionLeaf:RecA[add#1():{} => $0]\n",
    ];
    ctx.space("malformed-types", (bad.len() * forms.len()) as u64, |i, case| {
        let mut r = Radix(i);
        let form = *r.pick(&forms);
        let b = r.pick(&bad);
        // An empty parameter list inside a form that wraps the type is legal.
        if (form.contains("<{}>") || form.contains(", {}>")) && b.is_empty() {
            return;
        }
        let text = format!("{pre}=== Plan\n{}", form.replace("{}", b));
        rejected(case, &text, "the type is malformed or unsupported", &reg);
    });
    write_only(ctx, &reg);
    ctx.assume("types without a text grammar (varchar, decimal, struct, map, variations, non-type parameters) are outside the round-trip domain; they must be written with their parameters (or reported), and their text rejected or understood as the same type");
}

/// Types that the formatter spells out although the parser has no form for all
/// of them: their text shows each parameter, or the type is reported; the text
/// is never read as another type.
fn write_only(ctx: &Ctx, reg: &ExtensionRegistry) {
    let t = |kind: pt::Kind| proto::Type { kind: Some(kind) };
    let some = few_types();
    let ns = some.len();
    let mut all: Vec<(proto::Type, String)> = vec![];
    for null in [false, true] {
        let (nullability, q) = (crate::model::nullability(null), if null { "?" } else { "" });
        let type_variation_reference = 0;
        for n in (0..=40).chain([64, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, i32::MAX]) {
            all.push((t(pt::Kind::Varchar(pt::VarChar { length: n, type_variation_reference, nullability })), format!("varchar{q}<{n}>")));
            all.push((t(pt::Kind::FixedChar(pt::FixedChar { length: n, type_variation_reference, nullability })), format!("fixedchar{q}<{n}>")));
            all.push((t(pt::Kind::FixedBinary(pt::FixedBinary { length: n, type_variation_reference, nullability })), format!("fixedbinary{q}<{n}>")));
        }
        for precision in 0..=12 {
            all.push((t(pt::Kind::IntervalCompound(pt::IntervalCompound { precision, type_variation_reference, nullability })), format!("interval_compound{q}<{precision}>")));
        }
        for precision in 0..=38 {
            for scale in 0..=38 {
                all.push((t(pt::Kind::Decimal(pt::Decimal { precision, scale, type_variation_reference, nullability })), format!("decimal{q}<{precision}, {scale}>")));
            }
        }
        let spell = |x: &Ty| W { env: &env(), o: &Opts::default() }.ty(x);
        for a in &some {
            for b in &some {
                all.push((
                    t(pt::Kind::Map(Box::new(pt::Map {
                        key: Some(Box::new(ty_proto(a))),
                        value: Some(Box::new(ty_proto(b))),
                        type_variation_reference,
                        nullability,
                    }))),
                    format!("map{q}<{}, {}>", spell(a), spell(b)),
                ));
            }
        }
        for i in 0..crate::engine::seq_count(ns as u64, ctx.pick(2, 3)) {
            let w = crate::engine::seq_decode(i, ns as u64);
            let parts: Vec<String> = w.iter().map(|k| spell(&some[*k])).collect();
            let list = if parts.is_empty() { String::new() } else { format!("<{}>", parts.join(", ")) };
            all.push((
                t(pt::Kind::Struct(pt::Struct { types: w.iter().map(|k| ty_proto(&some[*k])).collect(), type_variation_reference, nullability })),
                format!("struct{q}{list}"),
            ));
        }
        // Parameters that are no types.
        use pt::parameter::Parameter as P;
        let ps: Vec<(P, &str)> = vec![
            (P::Boolean(true), "true"),
            (P::Boolean(false), "false"),
            (P::Integer(0), "0"),
            (P::Integer(-7), "-7"),
            (P::Integer(i64::MAX), "9223372036854775807"),
            (P::Enum("E".into()), "\"E\""),
            (P::String("s".into()), "'s'"),
            (P::Null(Default::default()), "null"),
            (P::DataType(ty_proto(&simple("i64"))), "i64"),
        ];
        for i in 1..crate::engine::seq_count(ps.len() as u64, 3) {
            let w = crate::engine::seq_decode(i, ps.len() as u64);
            if w.iter().all(|k| *k == 8) {
                continue;
            }
            let list: Vec<&str> = w.iter().map(|k| ps[*k].1).collect();
            all.push((
                t(pt::Kind::UserDefined(pt::UserDefined {
                    type_reference: 1,
                    type_variation_reference,
                    nullability,
                    type_parameters: w.iter().map(|k| pt::Parameter { parameter: Some(ps[*k].0.clone()) }).collect(),
                })),
                format!("json{q}<{}>", list.join(", ")),
            ));
        }
        // Variations.
        all.push((t(pt::Kind::I64(pt::I64 { type_variation_reference: 1, nullability })), format!("i64{q}[fixed_json]")));
        all.push((t(pt::Kind::Decimal(pt::Decimal { precision: 5, scale: 2, type_variation_reference: 1, nullability })), format!("decimal{q}[fixed_json]<5, 2>")));
        all.push((
            t(pt::Kind::UserDefined(pt::UserDefined { type_reference: 1, type_variation_reference: 1, nullability, type_parameters: vec![] })),
            format!("json{q}[fixed_json]"),
        ));
    }
    ctx.space("types-only-written", all.len() as u64 * 4, |i, case| {
        let mut r = Radix(i);
        let spot = r.take(4);
        let (ty, text) = r.pick(&all);
        // Inside a list as well.
        let (ty, text) = if spot == 3 {
            let inner = pt::List { r#type: Some(Box::new(ty.clone())), type_variation_reference: 0, nullability: crate::model::nullability(true) };
            (t(pt::Kind::List(Box::new(inner))), format!("list?<{text}>"))
        } else {
            (ty.clone(), text.clone())
        };
        let mark = simple("uuid");
        let doc = match spot {
            0 | 3 => doc1(rel(Op::Read(vec!["t".into()], vec![("a".into(), simple("i64")), ("b".into(), mark)]), vec![])),
            1 => place(&Ex::Cast(Box::new(Ex::Ref(0)), 0, mark), 0).unwrap(),
            _ => place(&Ex::Call(1, vec![Ex::Ref(0)], mark), 0).unwrap(),
        };
        let mut plan = doc.proto();
        if !swap(&mut plan, &ty) {
            return case.fail("model", "no place for the type", &text);
        }
        let want = doc.text(&Opts::default()).replace("uuid", &text);
        case.state(&want);
        let Some((got, errs)) = format(case, &plan, &options(&Opts::default()), reg, &want) else { return };
        case.trace();
        if errs.is_empty() && got != want {
            return case.fail("other-text", &format!("formatted as:\n{got}"), &want);
        }
        let Some(parsed) = parse(case, &want, reg) else { return };
        case.trace();
        if let Ok(p) = parsed {
            if bytes(&p) != bytes(&plan) {
                return case.fail("other-plan", &format!("read as another type:\n{}", show(&p, reg)), &want);
            }
        }
        case.outcome("written");
    });
}

/// Put the type where the placeholder is.
fn swap(plan: &mut proto::Plan, ty: &proto::Type) -> bool {
    use substrait::proto::expression::RexType;
    use substrait::proto::{plan_rel, rel::RelType};
    let Some(plan_rel::RelType::Rel(r)) = plan.relations[0].rel_type.as_mut() else { return false };
    match r.rel_type.as_mut() {
        Some(RelType::Read(r)) => r.base_schema.as_mut().unwrap().r#struct.as_mut().unwrap().types[1] = ty.clone(),
        Some(RelType::Filter(f)) => match f.condition.as_mut().unwrap().rex_type.as_mut() {
            Some(RexType::Cast(c)) => c.r#type = Some(ty.clone()),
            Some(RexType::ScalarFunction(f)) => f.output_type = Some(ty.clone()),
            _ => return false,
        },
        _ => return false,
    }
    true
}
