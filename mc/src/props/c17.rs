//! C17: conversions between text, JSON, YAML and protobuf keep the plan.
use crate::common::{bytes, diff, try_parse};
use crate::corpus::docs;
use crate::engine::{Case, Ctx, Radix, guarded, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;
use crate::props::c11::bases;
use crate::reflect::{apply, plan_of};
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, MapKey, SerializeOptions, Value};
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{
    DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto,
    FileDescriptorSet, MessageOptions, OneofDescriptorProto,
};
use substrait::proto;
use substrait::proto::expression::literal::{self, LiteralType};
use substrait::proto::expression::{Literal, RexType};
use substrait::proto::read_rel::{ReadType, VirtualTable};
use substrait::proto::rel::RelType;
use substrait::proto::{Expression, Plan, PlanRel, ProjectRel, ReadRel, Rel, plan_rel};
use substrait_explain::OutputOptions;
use substrait_explain::cli::{Cli, Commands, Format, Outcome};
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::json::{build_descriptor_pool, parse_json};

const FORMATS: [Format; 4] = [Format::Text, Format::Json, Format::Yaml, Format::Protobuf];

/// The plan in a format, written without the code under test where possible.
fn encode(f: &Format, plan: &Plan, text: &str) -> Option<Vec<u8>> {
    match f {
        Format::Text => Some(text.as_bytes().to_vec()),
        Format::Json => serde_json::to_vec(plan).ok(),
        Format::Yaml => serde_yaml::to_string(plan).ok().map(String::into_bytes),
        Format::Protobuf => Some(plan.encode_to_vec()),
    }
}

fn decode(f: &Format, b: &[u8]) -> Result<Plan, String> {
    match f {
        Format::Text => Err("text".into()),
        Format::Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
        Format::Yaml => serde_yaml::from_slice(b).map_err(|e| e.to_string()),
        Format::Protobuf => Plan::decode(b).map_err(|e| e.to_string()),
    }
}

fn convert(from: &Format, to: &Format, input: &[u8], reg: &ExtensionRegistry) -> Result<Vec<u8>, String> {
    let cli = Cli {
        command: Commands::Convert {
            input: "-".into(),
            output: "-".into(),
            from: Some(from.clone()),
            to: Some(to.clone()),
            show_literal_types: false,
            verbose: false,
        },
    };
    let mut out = vec![];
    match guarded(|| cli.run_with_io(input, &mut out, reg)) {
        Err(p) => Err(format!("PANIC {p}")),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Ok(Ok(Outcome::Success)) => Ok(out),
        Ok(Ok(o)) => Err(format!("{o:?}")),
    }
}

fn label(path: &[usize]) -> String {
    path.iter().map(|f| format!("{:?}", FORMATS[*f])).collect::<Vec<_>>().join(" -> ")
}

/// Follow a chain of conversions; each document on the way denotes the plan.
fn chain(case: &mut Case, path: &[usize], first: Vec<u8>, plan: &Plan, text: &str, reg: &ExtensionRegistry) {
    let name = label(path);
    let input = format!("{name}\n{text}");
    case.state(&input);
    let mut now = first;
    for w in path.windows(2) {
        let (from, to) = (&FORMATS[w[0]], &FORMATS[w[1]]);
        case.step(1);
        now = match convert(from, to, &now, reg) {
            Ok(b) => b,
            Err(e) => {
                let kind = if e.starts_with("PANIC") { "panic" } else { "refused" };
                return case.fail(kind, &format!("{from:?} -> {to:?} failed: {e}"), &input);
            }
        };
        case.trace();
        if *to == Format::Text {
            if now != text.as_bytes() {
                return case.fail("other-text", &diff(&String::from_utf8_lossy(&now), text), &input);
            }
            continue;
        }
        match decode(to, &now) {
            Ok(p) if bytes(&p) == bytes(plan) => {}
            Ok(p) => {
                let what = format!("after {from:?} -> {to:?}: {}", diff(&format!("{p:?}"), &format!("{plan:?}")));
                return case.fail("other-plan", &what, &input);
            }
            Err(e) => return case.fail("unreadable", &format!("{from:?} -> {to:?} wrote: {e}"), &input),
        }
    }
    case.outcome("kept");
}

// A message with a field of every kind, for payloads.

fn field(name: &str, n: i32, t: Type, of: Option<&str>, repeated: bool) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        label: Some(if repeated { Label::Repeated } else { Label::Optional } as i32),
        r#type: Some(t as i32),
        type_name: of.map(str::to_string),
        ..Default::default()
    }
}

fn file(name: &str, deps: &[&str], messages: Vec<DescriptorProto>) -> FileDescriptorProto {
    FileDescriptorProto {
        name: Some(name.into()),
        package: Some("mc".into()),
        dependency: deps.iter().map(|s| s.to_string()).collect(),
        message_type: messages,
        syntax: Some("proto3".into()),
        ..Default::default()
    }
}

/// Files everybody bundles who uses them; the plan's own schema does not.
const WELL_KNOWN: [&str; 3] =
    ["google/protobuf/timestamp.proto", "google/protobuf/duration.proto", "google/protobuf/wrappers.proto"];

/// Files of the payload schemas: a shared one, one that uses it and `Any`, and
/// one more that uses the shared one.
fn files() -> [FileDescriptorProto; 4] {
    let mut common = file(
        "mc/common.proto",
        &[],
        vec![DescriptorProto {
            name: Some("Inner".into()),
            field: vec![field("big", 1, Type::Int64, None, false), field("value", 2, Type::String, None, false)],
            ..Default::default()
        }],
    );
    common.enum_type.push(EnumDescriptorProto {
        name: Some("Mode".into()),
        value: ["MODE_ZERO", "MODE_ONE"]
            .iter()
            .enumerate()
            .map(|(i, n)| EnumValueDescriptorProto {
                name: Some(n.to_string()),
                number: Some(i as i32),
                ..Default::default()
            })
            .collect(),
        ..Default::default()
    });
    let mut text = field("maybe_text", 11, Type::String, None, false);
    text.oneof_index = Some(0);
    let mut count = field("maybe_count", 12, Type::Uint64, None, false);
    count.oneof_index = Some(0);
    let config = DescriptorProto {
        name: Some("Config".into()),
        field: vec![
            field("path", 1, Type::String, None, false),
            field("batch_size", 2, Type::Int64, None, false),
            field("ratio", 3, Type::Double, None, false),
            field("small", 4, Type::Float, None, false),
            field("on", 5, Type::Bool, None, false),
            field("raw", 6, Type::Bytes, None, false),
            field("mode", 7, Type::Enum, Some(".mc.Mode"), false),
            field("inner", 8, Type::Message, Some(".mc.Inner"), false),
            field("items", 9, Type::Message, Some(".mc.Inner"), true),
            field("numbers", 10, Type::Sint32, None, true),
            text,
            count,
            field("by_name", 13, Type::Message, Some(".mc.Config.ByNameEntry"), true),
            field("nested", 14, Type::Message, Some(".google.protobuf.Any"), false),
            field("value", 15, Type::Fixed64, None, false),
            field("type_url", 16, Type::Sfixed32, None, false),
        ],
        oneof_decl: vec![OneofDescriptorProto {
            name: Some("maybe".into()),
            ..Default::default()
        }],
        nested_type: vec![DescriptorProto {
            name: Some("ByNameEntry".into()),
            field: vec![field("key", 1, Type::String, None, false), field("value", 2, Type::Int32, None, false)],
            options: Some(MessageOptions {
                map_entry: Some(true),
                ..Default::default()
            }),
            ..Default::default()
        }],
        ..Default::default()
    };
    let other = DescriptorProto {
        name: Some("Other".into()),
        field: vec![field("inner", 1, Type::Message, Some(".mc.Inner"), false)],
        ..Default::default()
    };
    let timed = DescriptorProto {
        name: Some("Timed".into()),
        field: vec![
            field("at", 1, Type::Message, Some(".google.protobuf.Timestamp"), false),
            field("lasts", 2, Type::Message, Some(".google.protobuf.Duration"), false),
            field("maybe", 3, Type::Message, Some(".google.protobuf.Int64Value"), false),
        ],
        ..Default::default()
    };
    [
        common,
        file("mc/config.proto", &["mc/common.proto", "google/protobuf/any.proto"], vec![config]),
        file("mc/other.proto", &["mc/common.proto"], vec![other]),
        file("mc/timed.proto", &WELL_KNOWN, vec![timed]),
    ]
}

/// The files as separate blobs that each bundle what they need.
fn blobs() -> Vec<Vec<u8>> {
    let [common, config, other, timed] = files();
    let known = DescriptorPool::global();
    let mut timed_files: Vec<_> = WELL_KNOWN
        .iter()
        .map(|f| known.get_file_by_name(f).expect("a well-known file").file_descriptor_proto().clone())
        .collect();
    timed_files.push(timed);
    let core = FileDescriptorSet::decode(substrait::proto::FILE_DESCRIPTOR_SET).expect("core");
    let any = core.file.iter().find(|f| f.name() == "google/protobuf/any.proto").expect("any").clone();
    [vec![common.clone(), any, config], vec![common, other], vec![], timed_files]
        .into_iter()
        .map(|file| FileDescriptorSet { file }.encode_to_vec())
        .collect()
}

fn inner(pool: &DescriptorPool, big: i64, value: &str) -> DynamicMessage {
    let mut m = DynamicMessage::new(pool.get_message_by_name("mc.Inner").expect("Inner"));
    m.set_field_by_name("big", Value::I64(big));
    m.set_field_by_name("value", Value::String(value.into()));
    m
}

fn any(pool: &DescriptorPool, m: &DynamicMessage) -> DynamicMessage {
    use prost_reflect::ReflectMessage;
    let mut a = DynamicMessage::new(pool.get_message_by_name("google.protobuf.Any").expect("Any"));
    a.set_field_by_name("type_url", Value::String(format!("type.googleapis.com/{}", m.descriptor().full_name())));
    a.set_field_by_name("value", Value::Bytes(m.encode_to_vec().into()));
    a
}

/// Payload messages: empty, one field at a time with edge values, all at once,
/// and payloads within payloads.
fn payloads(pool: &DescriptorPool) -> Vec<DynamicMessage> {
    let config = || DynamicMessage::new(pool.get_message_by_name("mc.Config").expect("Config"));
    let strings = ["", "x", "two words", "a'b\"c\\d", "line\nbreak", "\u{e9}\u{1f600}\u{0}", "@type", "null", "1.0", "~"];
    let mut sets: Vec<(&str, Value)> = vec![];
    for s in strings {
        sets.push(("path", Value::String(s.into())));
        sets.push(("maybe_text", Value::String(s.into())));
    }
    for i in [0, 1, -1, i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1] {
        sets.push(("batch_size", Value::I64(i)));
        sets.push(("maybe_count", Value::U64(i as u64)));
        sets.push(("value", Value::U64(i as u64)));
        sets.push(("type_url", Value::I32(i as i32)));
        sets.push(("inner", Value::Message(inner(pool, i, ""))));
    }
    for f in [0.0, -0.0, 1.5, 0.1, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        sets.push(("ratio", Value::F64(f)));
    }
    for f in [0.0, 1.5, 0.1, -1e30, f32::NAN, f32::INFINITY] {
        sets.push(("small", Value::F32(f)));
    }
    sets.push(("on", Value::Bool(true)));
    for b in [&b""[..], b"a", b"ab", b"abc", b"\xff\xfe\xfd\xfc\xfb\x00", b"\x3e\x3f\xbe\xbf"] {
        sets.push(("raw", Value::Bytes(b.to_vec().into())));
    }
    for e in [0, 1, 7] {
        sets.push(("mode", Value::EnumNumber(e)));
    }
    for n in 0..4 {
        let v = (0..n).map(|i| Value::Message(inner(pool, i - 1, "@type"))).collect();
        sets.push(("items", Value::List(v)));
        sets.push(("numbers", Value::List((0..n).map(|i| Value::I32(i as i32 - 1)).collect())));
        let m = (0..n.min(1)).map(|i| (MapKey::String(format!("k{i} ")), Value::I32(i as i32 + 5))).collect();
        sets.push(("by_name", Value::Map(m)));
    }
    let mut out = vec![config()];
    for (n, v) in &sets {
        let mut m = config();
        m.set_field_by_name(n, v.clone());
        out.push(m);
    }
    let mut all = config();
    for (n, v) in &sets {
        all.set_field_by_name(n, v.clone());
    }
    out.push(all.clone());
    let mut other = DynamicMessage::new(pool.get_message_by_name("mc.Other").expect("Other"));
    other.set_field_by_name("inner", Value::Message(inner(pool, 5, "v")));
    out.push(other.clone());
    out.push(inner(pool, 3, "d"));
    // Messages with a spelling of their own, from files only the payload's schema brings.
    let known = |name: &str, seconds: i64, nanos: i32| {
        let mut m = DynamicMessage::new(pool.get_message_by_name(name).expect("a well-known type"));
        m.set_field_by_name("seconds", Value::I64(seconds));
        m.set_field_by_name("nanos", Value::I32(nanos));
        Value::Message(m)
    };
    for (seconds, nanos) in [(0, 0), (1, 1), (1_700_000_000, 120_000_000), (59, 999_999_999)] {
        let mut t = DynamicMessage::new(pool.get_message_by_name("mc.Timed").expect("Timed"));
        t.set_field_by_name("at", known("google.protobuf.Timestamp", seconds, nanos));
        t.set_field_by_name("lasts", known("google.protobuf.Duration", seconds, nanos));
        let mut w = DynamicMessage::new(pool.get_message_by_name("google.protobuf.Int64Value").expect("Int64Value"));
        w.set_field_by_name("value", Value::I64(seconds));
        t.set_field_by_name("maybe", Value::Message(w));
        out.push(t);
    }
    // A payload that is itself a substrait message, and payloads in payloads.
    let mut named = DynamicMessage::new(pool.get_message_by_name("substrait.ReadRel.NamedTable").expect("NamedTable"));
    named.set_field_by_name("names", Value::List(vec![Value::String("n".into())]));
    out.push(named);
    for m in [config(), all, other] {
        let mut c = config();
        c.set_field_by_name("nested", Value::Message(any(pool, &m)));
        out.push(c.clone());
        let mut d = config();
        d.set_field_by_name("nested", Value::Message(any(pool, &c)));
        out.push(d);
    }
    out
}

/// The paths of every `Any` in a plan, with the plan's other parts around it.
fn payload_plans() -> Vec<(String, Plan)> {
    docs()
        .into_iter()
        .map(|(n, d)| (n.to_string(), d.proto()))
        .filter(|(n, _)| n.starts_with("extension") || n.starts_with("read-ext") || n.starts_with("addend") || n.starts_with("opt"))
        .enumerate()
        .map(|(i, (n, mut p))| {
            // Strings that look like part of a payload, and are none.
            if i % 2 == 0 {
                let v = p.version.get_or_insert_default();
                v.minor_number = 3;
                v.producer = "{\"@type\": \"x\", \"typeUrl\": 1}".into();
            }
            (n, p)
        })
        .collect()
}

fn each_any(v: &mut Value, f: &mut impl FnMut(&mut DynamicMessage)) {
    match v {
        Value::Message(m) => each_any_in(m, f),
        Value::List(l) => l.iter_mut().for_each(|v| each_any(v, f)),
        _ => {}
    }
}

fn each_any_in(m: &mut DynamicMessage, f: &mut impl FnMut(&mut DynamicMessage)) {
    use prost_reflect::ReflectMessage;
    if m.descriptor().full_name() == "google.protobuf.Any" {
        return f(m);
    }
    let fields: Vec<_> = m.fields().map(|(d, _)| d).collect();
    for d in fields {
        each_any(m.get_field_mut(&d), f);
    }
}

/// Visit the outermost payloads of a document in the standard spelling, in the
/// order of their fields.
fn respell(v: &mut serde_json::Value, f: &mut impl FnMut(&mut serde_json::Value)) {
    match v {
        serde_json::Value::Object(o) if o.contains_key("@type") => f(v),
        serde_json::Value::Object(o) => o.values_mut().for_each(|v| respell(v, f)),
        serde_json::Value::Array(a) => a.iter_mut().for_each(|v| respell(v, f)),
        _ => {}
    }
}

pub fn run(ctx: &Ctx) {
    let reg = registry();
    // Every chain of formats from every document.
    let len = ctx.pick(4, 6);
    for (name, d) in docs() {
        let o = Opts::default();
        let text = d.text(&o);
        // A document that shares its text with another plan keeps that plan.
        let mut plan = d.proto();
        let mut with_text = true;
        if name == "virtual-emit" {
            with_text = false;
        } else if let Ok(Ok(p)) = try_parse(&text, &reg) {
            plan = p;
        }
        let fs: Vec<usize> = if with_text { vec![0, 1, 2, 3] } else { vec![1, 2, 3] };
        let n = (fs.len() as u64).pow(len);
        ctx.space(&format!("chains-{name}"), n, |i, case| {
            let mut r = Radix(i);
            let path: Vec<usize> = (0..len).map(|_| *r.pick(&fs)).collect();
            let Some(first) = encode(&FORMATS[path[0]], &plan, &text) else {
                return case.fail("encode", "no encoding", &text);
            };
            chain(case, &path, first, &plan, &text, &reg);
        });
    }
    // Everything that repeats, at sizes up to a bound, through every two steps.
    let families: Vec<crate::sweeps::Family> = [
        crate::sweeps::RELATIONS,
        crate::sweeps::EXPRESSIONS,
        crate::sweeps::TYPES,
        crate::sweeps::NAMES,
        crate::sweeps::ARGUMENTS,
        crate::sweeps::ADDENDA,
        crate::sweeps::DECLARATIONS,
    ]
    .concat();
    let s = crate::sweeps::sizes(ctx.pick(12, 140), ctx.pick(129, 1025));
    ctx.space("sizes", (families.len() * s.len() * 16) as u64, |i, case| {
        let mut r = Radix(i);
        let path = [r.take(4), r.take(4), 0];
        let n = *r.pick(&s);
        let f = r.pick(&families);
        // The depth other formats hold is bounded by their own libraries.
        if n > 12 && ["deep", "depth", "nested"].iter().any(|w| f.0.contains(w)) {
            return;
        }
        let Some(d) = f.1(n) else { return };
        let text = d.text(&Opts::default());
        let plan = d.proto();
        let Some(first) = encode(&FORMATS[path[0]], &plan, &text) else {
            return case.fail("encode", "no encoding", &text);
        };
        chain(case, &path, first, &plan, &text, &reg);
    });
    // Every single change of every field, through each pair of the formats
    // that can hold any plan.
    let bases = bases();
    let pool = build_descriptor_pool(&[]).expect("core pool");
    for b in &bases {
        let n = b.changes.len() as u64 * 6;
        ctx.space(&format!("changed-{}", b.name), n, |i, case| {
            let mut r = Radix(i);
            let (f, reading) = (&FORMATS[1 + r.take(3)], r.take(2) == 1);
            let c = &b.changes[r.0 as usize];
            let Some(m) = apply(&b.dynamic, c) else { return };
            let plan = plan_of(&m);
            let input = format!("{f:?} {}\n{plan:?}", c.name);
            let Some(there) = encode(f, &plan, "") else {
                // Enumerations without such a number: nothing is written.
                let got = guarded(|| f.write_plan(&mut vec![], &plan, &OutputOptions::default(), &reg).is_err());
                return match got {
                    Ok(true) => case.outcome("refused"),
                    Ok(false) => case.fail("unheld", "the format cannot hold this plan, but it was written", &input),
                    Err(p) => case.fail("panic", &p, &input),
                };
            };
            case.state(&input);
            case.step(1);
            let got = guarded(|| {
                if reading {
                    // Non-finite numbers are spelled by the writer.
                    if *f == Format::Json && String::from_utf8_lossy(&there).contains("null") {
                        return Ok(plan.clone());
                    }
                    match f {
                        Format::Json => parse_json(std::str::from_utf8(&there).expect("utf8"), &pool),
                        f => f.read_plan(there.as_slice(), &reg),
                    }
                    .map_err(|e| format!("{e:#}"))
                } else {
                    let mut out = vec![];
                    match f.write_plan(&mut out, &plan, &OutputOptions::default(), &reg) {
                        Ok(Outcome::Success) => decode(f, &out),
                        Ok(o) => Err(format!("{o:?}")),
                        Err(e) => Err(format!("{e:#}")),
                    }
                }
            });
            case.trace();
            match got {
                Err(p) => case.fail("panic", &p, &input),
                Ok(Err(e)) => case.fail("refused", &e, &input),
                Ok(Ok(p)) if bytes(&p) == bytes(&plan) => case.outcome("kept"),
                Ok(Ok(p)) => case.fail("other-plan", &diff(&format!("{p:?}"), &format!("{plan:?}")), &input),
            }
        });
    }
    // Floating point numbers side by side: those JSON has no spelling for, once,
    // twice and among others, in everything that holds several.
    let f64s = [1.5, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300];
    let f32s = [0.1, f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY];
    let nl = (f64s.len() + f32s.len()) as u64;
    ctx.space("numbers", seq_count(nl, ctx.pick(2, 3)) * 5 * 3, |i, case| {
        let mut r = Radix(i);
        let (f, place) = (&FORMATS[1 + r.take(3)], r.take(5));
        let seq = seq_decode(r.0, nl);
        // JSON and YAML know one not-a-number.
        let lits = |one: bool| -> Vec<Literal> {
            let lit = |&k: &usize| {
                let t = match f64s.get(k) {
                    Some(x) if one && x.is_nan() => LiteralType::Fp64(f64::NAN),
                    Some(x) => LiteralType::Fp64(*x),
                    None => match f32s[k - f64s.len()] {
                        x if one && x.is_nan() => LiteralType::Fp32(f32::NAN),
                        x => LiteralType::Fp32(x),
                    },
                };
                Literal { literal_type: Some(t), ..Default::default() }
            };
            seq.iter().map(lit).collect()
        };
        let plan = number_plan(place, lits(false));
        let same = if *f == Format::Protobuf { plan.clone() } else { number_plan(place, lits(true)) };
        let input = format!("{f:?}, place {place}: {seq:?}\n{plan:?}");
        case.state(&input);
        case.step(2);
        let mut out = vec![];
        let got = guarded(|| match f.write_plan(&mut out, &plan, &OutputOptions::default(), &reg) {
            Ok(Outcome::Success) => Ok(()),
            Ok(o) => Err(format!("{o:?}")),
            Err(e) => Err(format!("{e:#}")),
        });
        match got {
            Err(p) => return case.fail("panic", &p, &input),
            Ok(Err(e)) => return case.fail("refused", &e, &input),
            Ok(Ok(())) => {}
        }
        case.trace();
        let back = convert(f, &Format::Protobuf, &out, &reg);
        for (who, p) in [("another reader", decode(f, &out)), ("the program", back.and_then(|b| decode(&Format::Protobuf, &b)))] {
            match p {
                Ok(p) if bytes(&p) == bytes(&same) => {}
                Ok(p) => return case.fail("other-plan", &format!("{who}: {}", diff(&format!("{p:?}"), &format!("{same:?}"))), &input),
                Err(e) => return case.fail("unreadable", &format!("{who}: {e}"), &input),
            }
        }
        case.outcome("kept");
    });
    payload_spaces(ctx);
}

/// A plan with these numbers in one of the places that hold several.
fn number_plan(place: usize, lits: Vec<Literal>) -> Plan {
    let expr = |l: Literal| Expression { rex_type: Some(RexType::Literal(l)) };
    let whole = |t: LiteralType| vec![expr(Literal { literal_type: Some(t), ..Default::default() })];
    let exprs = match place {
        0 => whole(LiteralType::List(literal::List { values: lits.clone() })),
        1 => whole(LiteralType::Struct(literal::Struct { fields: lits.clone() })),
        2 => whole(LiteralType::Map(literal::Map {
            key_values: lits.iter().map(|l| literal::map::KeyValue { key: Some(l.clone()), value: Some(l.clone()) }).collect(),
        })),
        3 => vec![],
        _ => lits.iter().cloned().map(expr).collect(),
    };
    let read = ReadRel {
        read_type: Some(ReadType::VirtualTable(VirtualTable {
            expressions: if place == 3 {
                vec![proto::expression::nested::Struct { fields: lits.into_iter().map(expr).collect() }]
            } else {
                vec![]
            },
            ..Default::default()
        })),
        ..Default::default()
    };
    let input = Rel { rel_type: Some(RelType::Read(Box::new(read))) };
    let project = ProjectRel { input: Some(Box::new(input)), expressions: exprs, ..Default::default() };
    Plan {
        relations: vec![PlanRel {
            rel_type: Some(plan_rel::RelType::Rel(Rel { rel_type: Some(RelType::Project(Box::new(project))) })),
        }],
        ..Default::default()
    }
}

fn payload_spaces(ctx: &Ctx) {
    let blobs = blobs();
    let refs: Vec<&[u8]> = blobs.iter().map(Vec::as_slice).collect();
    let Ok(pool) = build_descriptor_pool(&refs) else {
        ctx.space("pool", 1, |_, case| case.fail("pool", "the descriptor pool cannot be built", ""));
        return;
    };
    let payloads = payloads(&pool);
    let plans = payload_plans();
    let mut reg = ExtensionRegistry::new();
    blobs.iter().for_each(|b| reg.add_descriptor(b.clone()));
    let desc = pool.get_message_by_name("substrait.Plan").expect("Plan");
    // Every payload at every place, in every spelling the JSON mapping has.
    let n = (plans.len() * payloads.len() * 16) as u64;
    ctx.space("payloads", n, |i, case| {
        let mut r = Radix(i);
        let flags = r.take(16);
        let m = r.pick(&payloads);
        let (name, base) = r.pick(&plans);
        let mut d = DynamicMessage::decode(desc.clone(), base.encode_to_vec().as_slice()).expect("plan");
        let payload = any(&pool, m);
        each_any_in(&mut d, &mut |a| *a = payload.clone());
        let plan = Plan::decode(d.encode_to_vec().as_slice()).expect("plan");
        let on = |b: usize| flags >> b & 1 == 1;
        let o = SerializeOptions::new()
            .skip_default_fields(!on(0))
            .use_proto_field_name(on(1))
            .stringify_64_bit_integers(!on(2))
            .use_enum_numbers(on(3));
        let mut s = serde_json::Serializer::new(vec![]);
        if let Err(e) = d.serialize_with_options(&mut s, &o) {
            return case.fail("harness", &e.to_string(), name);
        }
        let json = String::from_utf8(s.into_inner()).expect("utf8");
        case.state(&json);
        case.step(1);
        let got = guarded(|| parse_json(&json, &pool));
        case.trace();
        match got {
            Err(p) => case.fail("panic", &p, &json),
            Ok(Err(e)) => case.fail("refused", &format!("{e:?}"), &json),
            Ok(Ok(p)) if bytes(&p) == bytes(&plan) => case.outcome("kept"),
            Ok(Ok(p)) => case.fail("other-plan", &diff(&format!("{p:?}"), &format!("{plan:?}")), &json),
        }
        if flags == 0 {
            // The other spelling, and all conversions of both.
            for to in 1..4 {
                for from in [json.as_bytes().to_vec(), serde_json::to_vec(&plan).expect("json")] {
                    case.step(1);
                    case.trace();
                    match convert(&FORMATS[1], &FORMATS[to], &from, &reg).and_then(|b| decode(&FORMATS[to], &b)) {
                        Ok(p) if bytes(&p) == bytes(&plan) => {}
                        Ok(p) => case.fail("other-plan", &diff(&format!("{p:?}"), &format!("{plan:?}")), &json),
                        Err(e) => case.fail("refused", &e, &json),
                    }
                }
            }
        }
    });
    // Descriptors in any order and number; a missing one is an error for the
    // standard spelling, and changes nothing for the naive one.
    let orders: Vec<Vec<usize>> = (0..crate::engine::seq_count(4, 3)).map(|i| crate::engine::seq_decode(i, 4)).collect();
    let n = (orders.len() * payloads.len()) as u64;
    ctx.space("descriptors", n, |i, case| {
        let mut r = Radix(i);
        let order = r.pick(&orders);
        let m = r.pick(&payloads);
        let refs: Vec<&[u8]> = order.iter().map(|b| blobs[*b].as_slice()).collect();
        let (_, base) = &plans[0];
        let mut d = DynamicMessage::decode(desc.clone(), base.encode_to_vec().as_slice()).expect("plan");
        let payload = any(&pool, m);
        each_any_in(&mut d, &mut |a| *a = payload.clone());
        let plan = Plan::decode(d.encode_to_vec().as_slice()).expect("plan");
        let standard = serde_json::to_string(&d).expect("json");
        let naive = serde_json::to_string(&plan).expect("json");
        case.state(&format!("{order:?} {standard}"));
        case.step(3);
        let p = match guarded(|| build_descriptor_pool(&refs)) {
            Ok(Ok(p)) => p,
            e => return case.fail("pool", &format!("{e:?}"), &standard),
        };
        // The schemas the payload needs, from the inside out.
        let known = standard
            .split("\"@type\":\"type.googleapis.com/")
            .skip(1)
            .all(|t| {
                let t = t.split('"').next().unwrap_or("");
                match t {
                    "mc.Config" => order.contains(&0),
                    "mc.Other" => order.contains(&1),
                    "mc.Timed" => order.contains(&3),
                    "mc.Inner" => order.contains(&0) || order.contains(&1),
                    _ => true,
                }
            });
        case.trace();
        match (guarded(|| parse_json(&standard, &p)), known) {
            (Err(p), _) => case.fail("panic", &p, &standard),
            (Ok(Ok(p)), _) if bytes(&p) == bytes(&plan) => case.outcome(if known { "kept" } else { "kept unknown" }),
            (Ok(Ok(p)), _) => case.fail("other-plan", &diff(&format!("{p:?}"), &format!("{plan:?}")), &standard),
            (Ok(Err(e)), true) => case.fail("refused", &format!("{e:#}"), &standard),
            (Ok(Err(_)), false) => case.outcome("unknown payload refused"),
        }
        match guarded(|| parse_json(&naive, &p)) {
            Ok(Ok(p)) if bytes(&p) == bytes(&plan) => {}
            e => case.fail("naive", &format!("{e:?}"), &naive),
        }
    });
    // Several payloads in one plan, each in either spelling.
    let several: Vec<&DynamicMessage> = payloads.iter().step_by(ctx.pick(9, 3)).collect();
    let n = (several.len() * several.len() * 16) as u64;
    ctx.space("mixed", n, |i, case| {
        let mut r = Radix(i);
        let spell = r.take(16);
        let (a, b) = (r.pick(&several), r.pick(&several));
        let msgs = [any(&pool, a), any(&pool, b), any(&pool, b), any(&pool, a)];
        let (_, base) = plans.last().expect("plans");
        let mut d = DynamicMessage::decode(desc.clone(), base.encode_to_vec().as_slice()).expect("plan");
        let mut k = 0;
        each_any_in(&mut d, &mut |x| {
            *x = msgs[k % 4].clone();
            k += 1;
        });
        let plan = Plan::decode(d.encode_to_vec().as_slice()).expect("plan");
        let mut v = serde_json::to_value(&d).expect("json");
        let mut k = 0;
        let mut mixed = (false, false);
        respell(&mut v, &mut |x| {
            let naive = spell >> (k % 4) & 1 == 1;
            if naive {
                mixed.0 = true;
                let desc = pool.get_message_by_name("google.protobuf.Any").expect("Any");
                let a = DynamicMessage::deserialize(desc, x.clone()).expect("any");
                let m = serde_json::to_value(pbjson_types::Any {
                    type_url: a.get_field_by_name("type_url").expect("url").as_str().expect("url").into(),
                    value: a.get_field_by_name("value").expect("value").as_bytes().expect("value").clone(),
                });
                *x = m.expect("json");
            } else {
                mixed.1 = true;
            }
            k += 1;
        });
        let json = v.to_string();
        case.state(&json);
        case.step(1);
        case.trace();
        match guarded(|| parse_json(&json, &pool)) {
            Err(p) => case.fail("panic", &p, &json),
            Ok(Ok(p)) if bytes(&p) == bytes(&plan) => case.outcome("kept"),
            Ok(Ok(p)) => case.fail("other-plan", &diff(&format!("{p:?}"), &format!("{plan:?}")), &json),
            // One document in both spellings need not be read, but not misread.
            Ok(Err(_)) if mixed == (true, true) => case.outcome("mixed spellings refused"),
            Ok(Err(e)) => case.fail("refused", &format!("{e:#}"), &json),
        }
    });
}
