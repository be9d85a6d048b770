//! C11: formatting any plan gives text, and every fault is reported.
use std::collections::{BTreeSet, HashMap};

use crate::common::{diff, format, options, parse};
use crate::corpus::{docs, long_docs};
use crate::engine::{Case, Ctx, Radix};
use crate::ext::registry;
use crate::model::*;
use crate::reflect::{Change, Edit, Step, apply, changes, dynamic, plan_of, pool};
use prost_reflect::{DynamicMessage, ReflectMessage, Value};
use substrait::proto::Plan;
use substrait_explain::extensions::ExtensionRegistry;

/// The names and numbers a message still holds.
fn markers(m: &DynamicMessage, out: &mut BTreeSet<String>) {
    fn value(v: &Value, out: &mut BTreeSet<String>) {
        match v {
            Value::Message(m) => markers(m, out),
            Value::List(l) => l.iter().for_each(|v| value(v, out)),
            Value::String(s) => {
                if let Some(i) = s.find("mk") {
                    out.insert(s[i..].chars().take(5).collect());
                }
            }
            Value::I64(i) if (7000..8000).contains(i) => {
                out.insert(i.to_string());
            }
            Value::I32(i) if (7000..8000).contains(i) => {
                out.insert(i.to_string());
            }
            Value::U32(i) if (7000..8000).contains(i) => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
    for (_, v) in m.fields() {
        value(v, out);
    }
}

/// Parts of a plan that the text has no place for and that do not change what
/// the plan computes, or that are the same as leaving them out.
fn unshown(b: &Base, c: &Change) -> bool {
    let n = c.name.strip_prefix("substrait.").unwrap_or(&c.name);
    let last = n.rsplit('.').next().unwrap_or(n);
    let swap = matches!(c.edit, Edit::Swap(_));
    match n {
        // Order of declarations.
        "Plan.extension_urns" | "Plan.extensions" => swap,
        // An absent version is version 0.0.0.
        "Plan.version" => true,
        "Plan.expected_type_urls" => true,
        "RelCommon.direct" | "RelCommon.hint" => true,
        "Type.Struct.nullability" | "Type.Struct.type_variation_reference" => true,
        // A typed null's own type says that it is nullable.
        "Expression.Literal.nullable" => b.name == "expressions",
        // The whole aggregation over all rows, spelled out; unknown numbers.
        "AggregateFunction.phase" => !matches!(c.edit, Edit::Set(Value::EnumNumber(1 | 2 | 4))),
        "AggregateFunction.invocation" => !matches!(c.edit, Edit::Set(Value::EnumNumber(2))),
        // Deprecated, and ignored when the current field is used.
        "AggregateRel.Grouping.grouping_expressions" => true,
        // No grouping set and one empty set are both a single group.
        "AggregateRel.groupings" => b.name == "aggregate-all",
        "NamedStruct.struct" | "ReadRel.base_schema" => b.name == "read-nothing",
        // Not part of the mapped output.
        "ProjectRel.expressions" | "NamedStruct.names" | "Type.Struct.types" => b.name.ends_with("-emit"),
        // An empty one says nothing.
        _ => match &c.edit {
            Edit::Set(Value::Message(m)) => {
                (last == "common" || last.starts_with("advanced_extension")) && m.fields().next().is_none()
            }
            _ => last == "common",
        },
    }
}

/// Parts that are shown as they are, but that the text format cannot read back
/// (or that make the plan one that no text denotes).
fn not_readable(c: &Change) -> bool {
    let n = c.name.strip_prefix("substrait.").unwrap_or(&c.name);
    n.starts_with("Type.Parameter.")
        || n.starts_with("extensions.")
        || n.starts_with("FetchRel.")
        || n.ends_with(".precision")
        || matches!(
            n,
            "AggregateFunction.options"
                | "Expression.ScalarFunction.options"
                | "AggregateRel.measures"
                | "Expression.IfThen.ifs"
                | "Expression.Literal.binary"
                | "Expression.Literal.i8"
                | "Expression.Literal.i16"
                | "Expression.Literal.i64"
                | "FunctionArgument.enum"
                | "FunctionArgument.type"
                | "Plan.extension_urns"
                | "ReadRel.base_schema"
        )
}

/// Changes that spell the same plan in another way, which its text does not keep.
fn respelled(b: &Base, c: &Change) -> bool {
    let n = c.name.strip_prefix("substrait.").unwrap_or(&c.name);
    let last = n.rsplit('.').next().unwrap_or(n);
    b.name.ends_with("-emit")
        || b.name == "aggregate-all"
        || last == "common"
        || last == "advanced_extension"
        || matches!(
            n,
            "Plan.version"
                | "RelCommon.emit"
                | "RelCommon.direct"
                | "FetchRel.count"
                | "FetchRel.offset"
                | "ReadRel.base_schema"
                | "Expression.Literal.interval_day_to_second"
                | "Expression.Literal.IntervalDayToSecond.microseconds"
                | "Expression.Literal.IntervalDayToSecond.precision"
                | "Type.IntervalDay.precision"
        )
        || b.name.contains("aggregate")
            && matches!(
                n,
                "AggregateRel.Grouping.expression_references"
                    | "AggregateRel.groupings"
                    | "AggregateRel.grouping_expressions"
                    | "Expression.ReferenceSegment.StructField.field"
                    | "Expression.ReferenceSegment.struct_field"
            )
}

/// Equal up to the order of the declarations.
fn same_plan(a: &Plan, b: &Plan) -> bool {
    let sorted = |p: &Plan| {
        let mut p = p.clone();
        p.extensions.sort_by_key(|e| format!("{e:?}"));
        p.extension_urns.sort_by_key(|u| u.extension_urn_anchor);
        p
    };
    a == b || sorted(a) == sorted(b)
}

pub struct Base {
    pub name: &'static str,
    pub dynamic: DynamicMessage,
    text: String,
    pub changes: Vec<Change>,
    /// Line of each relation and root, by path, with its parent's line and the
    /// number of lines of its tree; empty if some relation has several lines.
    lines: HashMap<String, (usize, Option<usize>, usize)>,
}

fn path_text(p: &[Step]) -> String {
    p.iter()
        .map(|s| match s {
            Step::Field(n) => format!(".{n}"),
            Step::Index(i) => format!("[{i}]"),
        })
        .collect()
}

type Lines = Vec<(String, Option<usize>, usize)>;

fn find_lines(m: &DynamicMessage, path: &mut Vec<Step>, parent: Option<usize>, out: &mut Lines) {
    let own = match m.descriptor().full_name() {
        "substrait.Rel" | "substrait.RelRoot" => {
            out.push((path_text(path), parent, 0));
            Some(out.len() - 1)
        }
        _ => None,
    };
    let up = own.or(parent);
    for (f, v) in m.fields() {
        path.push(Step::Field(f.number()));
        match v {
            Value::Message(x) => find_lines(x, path, up, out),
            Value::List(l) => {
                for (i, x) in l.iter().enumerate() {
                    if let Value::Message(x) = x {
                        path.push(Step::Index(i));
                        find_lines(x, path, up, out);
                        path.pop();
                    }
                }
            }
            _ => {}
        }
        path.pop();
    }
    if let Some(k) = own {
        out[k].2 = out.len() - k;
    }
}

fn plan_lines(text: &str) -> Option<(&str, Vec<&str>)> {
    let at = text.find("=== Plan\n")?;
    Some((&text[..at], text[at + 9..].lines().filter(|l| !l.is_empty()).collect()))
}

pub fn bases() -> Vec<Base> {
    bases_of(docs())
}

fn bases_of(docs: Vec<(&'static str, Doc)>) -> Vec<Base> {
    let p = pool();
    docs.into_iter()
        .map(|(name, d)| {
            let dynamic = dynamic(&p, &d.proto());
            let text = d.text(&Opts::default());
            let mut lines = vec![];
            find_lines(&dynamic, &mut vec![], None, &mut lines);
            let one_each = plan_lines(&text).is_some_and(|(_, l)| l.len() == lines.len());
            let lines = if one_each {
                lines.into_iter().enumerate().map(|(k, (p, up, n))| (p, (k, up, n))).collect()
            } else {
                HashMap::new()
            };
            Base {
                name,
                changes: changes(&dynamic),
                dynamic,
                text,
                lines,
            }
        })
        .collect()
}

fn value(v: &Value) -> String {
    match v {
        Value::Message(_) => "an empty message".into(),
        Value::List(l) => format!("[{}]", l.iter().map(value).collect::<Vec<_>>().join(", ")),
        v => format!("{v:?}"),
    }
}

fn describe(b: &Base, c: &Change) -> String {
    let edit = match &c.edit {
        Edit::Clear => "clear".to_string(),
        Edit::Set(v) => format!("set to {}", value(v)),
        Edit::Push(v) => format!("append {}", value(v)),
        Edit::Remove(i) => format!("remove element {i}"),
        Edit::Double(i) => format!("repeat element {i}"),
        Edit::Swap(i) => format!("swap elements {i} and {}", i + 1),
    };
    format!("{}: {} in {}: {edit}", b.name, c.name, path_text(&c.path))
}

/// Everything but the changed relation, what is inside it if that changed, and
/// the columns its ancestors hand on, is shown as before.
fn local(b: &Base, c: &Change, text: &str) -> Result<(), String> {
    if b.lines.is_empty() {
        return Ok(());
    }
    let (head, old) = plan_lines(&b.text).ok_or("no plan")?;
    let (new_head, new) = plan_lines(text).ok_or("the plan header is missing")?;
    let Some((k, mut up, size)) = (0..=c.path.len()).rev().find_map(|n| b.lines.get(&path_text(&c.path[..n])).copied()) else {
        // In the declarations or at the top: the relations are still there.
        if c.via.len() > 1 && !c.path.is_empty() && c.path[0] != Step::Field(3) && new.len() != old.len() {
            return Err(format!("{} relation lines instead of {}", new.len(), old.len()));
        }
        return Ok(());
    };
    if head != new_head {
        return Err("the declarations changed".into());
    }
    let last = c.name.rsplit('.').next().unwrap_or("");
    let structural = c.via.last().is_some_and(|m| m == "substrait.Rel") || matches!(last, "input" | "inputs" | "left" | "right");
    let mut ancestors = BTreeSet::new();
    while let Some(a) = up {
        ancestors.insert(a);
        up = old_parent(b, a);
    }
    for i in 0..k {
        let (o, n) = (old[i], *new.get(i).ok_or("lines are missing")?);
        let same = if ancestors.contains(&i) {
            o.split('[').next() == n.split('[').next()
        } else {
            o == n
        };
        if !same {
            return Err(format!("{o:?} became {n:?}"));
        }
    }
    let rest = if structural { old.len() - k - size } else { old.len() - k - 1 };
    if new.len() < rest || new[new.len() - rest..] != old[old.len() - rest..] {
        return Err(format!("the last {rest} lines changed"));
    }
    Ok(())
}

fn old_parent(b: &Base, k: usize) -> Option<usize> {
    b.lines.values().find(|l| l.0 == k).and_then(|l| l.1)
}

fn check(case: &mut Case, b: &Base, c: &Change, reg: &ExtensionRegistry) {
    let Some(m) = apply(&b.dynamic, c) else { return };
    let plan = plan_of(&m);
    let desc = describe(b, c);
    case.state(&desc);
    let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), reg, &desc) else { return };
    case.trace();
    if text.contains("!{") && errs.is_empty() {
        case.fail("unreported", &format!("a failure token without an error:\n{text}"), &desc);
        return;
    }
    // What the message still holds is still shown.
    let mapped = b.name.ends_with("-emit") || c.name.contains("emit") || c.name.contains("Emit");
    let conflict = c.name.ends_with("_anchor");
    let read_type = c.via.last().is_some_and(|v| v == "substrait.ReadRel") && b.name == "virtual";
    if !mapped && !conflict && !read_type {
        let mut left = BTreeSet::new();
        markers(&m, &mut left);
        let lost: Vec<_> = left.iter().filter(|k| !text.contains(k.as_str())).collect();
        if !lost.is_empty() {
            case.fail("hidden", &format!("{lost:?} are in the plan but not shown; errors {errs:?}\n{text}"), &desc);
            return;
        }
    }
    // A declared name is written as it is; one with a line break is reported.
    let broken = c.name.starts_with("substrait.extensions.") && desc.contains("\\n");
    if broken && errs.is_empty() {
        case.fail("line-break", &format!("a declaration with a line break is not reported\n{text}"), &desc);
        return;
    }
    if let Some(e) = local(b, c, &text).err().filter(|_| !broken) {
        case.fail("not-local", &format!("{e}\n{text}"), &desc);
        return;
    }
    if !errs.is_empty() {
        case.outcome("reported");
        return;
    }
    let same = plan_of(&b.dynamic) == plan;
    if text == b.text && !same {
        if !unshown(b, c) {
            case.fail("invisible", &format!("the change shows neither in the text nor in the errors\n{text}"), &desc);
        }
        case.outcome("not part of the text");
        return;
    }
    let Some(parsed) = parse(case, &text, reg) else { return };
    match parsed {
        Err(_) if not_readable(c) => case.outcome("shown, not readable"),
        Err(e) => case.fail("unreadable", &format!("formatted without errors, but the text is rejected: {e}\n{text}"), &desc),
        Ok(p) if same_plan(&p, &plan) => case.outcome("another plan"),
        Ok(p) => {
            let Some((again, _)) = format(case, &p, &options(&Opts::default()), reg, &desc) else { return };
            if again != text {
                case.fail("no-fixpoint", &format!("formatted without errors, but reads back as something else:\n{text}\n{again}"), &desc);
            } else if !respelled(b, c) {
                case.fail("substituted", &format!("formatted without errors, but the text denotes another plan:\n{text}\n{}", diff(&format!("{p:?}"), &format!("{plan:?}"))), &desc);
            } else {
                case.outcome("same text");
            }
        }
    }
}

fn pair(case: &mut Case, b: &Base, c: &Change, d: &Change, reg: &ExtensionRegistry) {
    let Some(m) = apply(&b.dynamic, c).and_then(|m| apply(&m, d)) else { return };
    let plan = plan_of(&m);
    let desc = format!("{} and {}", describe(b, c), describe(b, d));
    case.state(&desc);
    let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), reg, &desc) else { return };
    case.trace();
    if text.contains("!{") && errs.is_empty() {
        case.fail("unreported", &format!("a failure token without an error:\n{text}"), &desc);
        return;
    }
    if plan_lines(&text).is_none() {
        case.fail("no-text", &format!("no plan in the text:\n{text}"), &desc);
        return;
    }
    case.outcome(if errs.is_empty() { "no errors" } else { "reported" });
}

pub fn run(ctx: &Ctx) {
    let reg = registry();
    let bases = bases();
    crate::props::c01::deprecated_groupings(ctx, &reg);
    for b in &bases {
        ctx.space(&format!("unchanged-{}", b.name), 1, |_, case| {
            let desc = format!("{}: unchanged", b.name);
            case.state(&desc);
            let Some((text, errs)) = format(case, &plan_of(&b.dynamic), &options(&Opts::default()), &reg, &desc) else { return };
            // The mapping of a virtual read is reported.
            let reported = b.name == "virtual-emit";
            if text != b.text || errs.is_empty() == reported {
                case.fail("other-text", &format!("formatted as:\n{text}\nerrors: {errs:?}"), &b.text);
            }
        });
        ctx.space(&format!("single-{}", b.name), b.changes.len() as u64, |i, case| check(case, b, &b.changes[i as usize], &reg));
    }
    for b in &bases_of(long_docs()) {
        let few: Vec<&Change> = b.changes.iter().filter(|c| c.path.first() == Some(&Step::Field(3))).collect();
        ctx.space(&format!("single-{}", b.name), few.len() as u64, |i, case| check(case, b, few[i as usize], &reg));
    }
    // Two faults at once.
    for b in &bases {
        let few: Vec<&Change> = b
            .changes
            .iter()
            .filter(|c| {
                let empty = matches!(c.edit, Edit::Set(Value::Message(_)));
                let decl = c.name.starts_with("substrait.extensions.") || c.via.len() == 1;
                !decl && (matches!(c.edit, Edit::Clear) || empty)
            })
            .collect();
        let n = few.len() as u64;
        ctx.space(&format!("pairs-{}", b.name), n * n, |i, case| {
            let mut r = Radix(i);
            let (x, y) = (r.take(few.len()), r.take(few.len()));
            let clears = |i: usize| matches!(few[i].edit, Edit::Clear);
            if x < y && (!ctx.quick() || clears(x) && clears(y)) {
                pair(case, b, few[x], few[y], &reg);
            }
        });
    }
    // Many faults at once: every one of them is shown and reported.
    let s = crate::sweeps::sizes(ctx.pick(150, 500), ctx.pick(1025, 4097));
    ctx.space("many-faults", s.len() as u64 * 6, |i, case| {
        use crate::model::*;
        let mut r = Radix(i);
        let kind = r.take(6);
        let n = *r.pick(&s);
        let undeclared = |k: usize| Ex::Call(500_000 + k as u32, vec![Ex::Ref(0)], simple("i64"));
        let leaf = || crate::pools::read(1);
        let top = match kind {
            0 => rel(Op::Project((0..n).map(undeclared).collect()), vec![leaf()]),
            1 => rel(Op::Read(vec!["t".into()], (0..n).map(|k| (format!("c{k}"), udt(500_000 + k as u32, vec![]))).collect()), vec![]),
            2 => rel(Op::Sort((0..n).map(|k| (undeclared(k), k % 4)).collect()), vec![leaf()]),
            3 => rel(Op::Filter(Ex::Call(1, (0..n).map(undeclared).collect(), simple("i64"))), vec![leaf()]),
            4 => rel(Op::ExtMulti(Pay { id: 0, args: Args { cols: vec![Col::Ex(Ex::Ref(0))], ..Args::default() } }), (0..n).map(|k| rel(Op::Filter(undeclared(k)), vec![leaf()])).collect()),
            _ => rel(Op::Virtual { rows: (0..n).map(|k| vec![undeclared(k)]).collect(), filter: None, cols: crate::pools::cols(1) }, vec![]),
        };
        let plan = crate::pools::doc1(top).proto();
        let desc = format!("{n} faults of kind {kind}");
        case.state(&desc);
        let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), &reg, &desc) else { return };
        case.trace();
        // Each of them names its own anchor, in the text and in the list.
        let listed: Vec<String> = errs.iter().map(|e| e.to_string()).collect();
        for k in 0..n {
            let a = format!("{}", 500_000 + k);
            if !listed.iter().any(|e| e.contains(&a)) {
                return case.fail("unreported", &format!("anchor {a} is not among the {} errors", errs.len()), &desc);
            }
        }
        let shown = text.matches("!{").count();
        if shown < n {
            return case.fail("hidden", &format!("{shown} failure tokens for {n} faults"), &desc);
        }
    });
    parts(ctx, &reg);
    // Without any registered handler every extension is reported, in place.
    let none = ExtensionRegistry::new();
    for b in &bases {
        let uses = ["extension", "addenda"].iter().any(|p| b.name.contains(p));
        ctx.space(&format!("unregistered-{}", b.name), b.changes.len() as u64, |i, case| {
            let c = &b.changes[i as usize];
            let Some(m) = apply(&b.dynamic, c) else { return };
            let desc = format!("no handlers, {}", describe(b, c));
            case.state(&desc);
            let Some((text, errs)) = format(case, &plan_of(&m), &options(&Opts::default()), &none, &desc) else { return };
            case.trace();
            if text.contains("!{") && errs.is_empty() {
                case.fail("unreported", &format!("a failure token without an error:\n{text}"), &desc);
            }
            if uses && text.contains("xtension") && !text.contains("!{") && text.contains("Rec") {
                case.fail("unreported", &format!("shown without a handler:\n{text}"), &desc);
            }
        });
    }
}

/// Parts with no place in the text are reported beside the whole text, whatever
/// else the plan holds; the parts of a call that the text only shows are all there.
fn parts(ctx: &Ctx, reg: &ExtensionRegistry) {
    use substrait::proto::extensions::AdvancedExtension;
    use substrait::proto::function_argument::ArgType;
    use substrait::proto::{DynamicParameterBinding, FunctionArgument, FunctionOption, TypeAlias};
    let any = |n: usize| pbjson_types::Any { type_url: format!("t/{n}"), value: vec![0; n].into() };
    let tops = [None, Some(crate::pools::read(1)), Some(crate::model::rel(crate::model::Op::Filter(crate::model::Ex::Ref(0)), vec![crate::pools::read(2)]))];
    ctx.space("plan-parts", 3 * 4 * 3 * 3 * 4, |i, case| {
        let mut r = Radix(i);
        let (enh, opts) = (r.take(3), r.take(4));
        let (bind, alias) = (r.take(3), r.take(3));
        let which = r.take(4);
        let doc = crate::pools::doc(tops[which % 3].iter().cloned().map(crate::model::Top::Rel).collect());
        let mut plan = doc.proto();
        let plain = doc.text(&Opts::default());
        if which == 3 {
            plan.expected_type_urls = vec!["t/1".into()];
        }
        if enh > 0 || opts > 0 {
            plan.advanced_extensions = Some(AdvancedExtension {
                enhancement: (enh > 0).then(|| any(enh - 1)),
                optimization: (1..opts).map(any).collect(),
            });
        }
        plan.parameter_bindings = (0..bind).map(|n| DynamicParameterBinding { parameter_anchor: n as u32, value: None }).collect();
        plan.type_aliases = (0..alias).map(|n| TypeAlias { type_alias_anchor: n as u32, r#type: None, ..Default::default() }).collect();
        let desc = format!("enhancement {enh}, optimizations {opts}, bindings {bind}, aliases {alias}, tree {which}");
        case.state(&desc);
        let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), reg, &desc) else { return };
        case.trace();
        if text != plain {
            return case.fail("not-local", &format!("the rest changed to:\n{text}"), &desc);
        }
        let least = (enh > 0 || opts > 1) as usize + (bind > 0) as usize + (alias > 0) as usize;
        if errs.len() < least {
            return case.fail("unreported", &format!("{least} kinds of parts are left out, errors: {errs:?}"), &desc);
        }
        if least == 0 && !errs.is_empty() {
            return case.fail("errors", &format!("nothing is left out, errors: {errs:?}"), &desc);
        }
        case.outcome("parts");
    });
    let value = |e: crate::model::Ex| ArgType::Value(crate::model::ex_proto(&e));
    let args: Vec<(ArgType, &str)> = vec![
        (value(crate::model::Ex::Ref(0)), "$0"),
        (value(crate::model::int(7)), "7"),
        (ArgType::Type(crate::model::ty_proto(&crate::model::list(crate::model::simple("i64").nullable()))), "list<i64?>"),
        (ArgType::Enum("DAY".into()), "&DAY"),
        (ArgType::Enum("a b".into()), "&\"a b\""),
    ];
    let opts: Vec<(FunctionOption, &str)> = [("o", &[][..], "o⇒[]"), ("o", &["A"], "o⇒[A]"), ("p", &["A", "B"], "p⇒[A, B]"), ("q", &["B", "A", "A"], "q⇒[B, A, A]")]
        .into_iter()
        .map(|(n, p, t)| (FunctionOption { name: n.into(), preference: p.iter().map(|x| x.to_string()).collect() }, t))
        .collect();
    let (na, no) = (args.len() as u64, opts.len() as u64);
    ctx.space("call-parts", crate::engine::seq_count(na, 3) * crate::engine::seq_count(no, 2) * 2, |i, case| {
        use crate::model::*;
        use substrait::proto::expression::RexType;
        use substrait::proto::{plan_rel, rel::RelType};
        let mut r = Radix(i);
        let measure = r.take(2) == 1;
        let o = crate::engine::seq_decode(r.take(crate::engine::seq_count(no, 2) as usize) as u64, no);
        let a = crate::engine::seq_decode(r.0, na);
        let doc = crate::pools::doc1(if measure {
            rel(Op::Agg(vec![], vec![vec![]], vec![(3, vec![], simple("i64"))]), vec![crate::pools::read(1)])
        } else {
            rel(Op::Filter(Ex::Call(3, vec![], simple("i64"))), vec![crate::pools::read(1)])
        });
        let mut plan = doc.proto();
        let arguments: Vec<FunctionArgument> = a.iter().map(|k| FunctionArgument { arg_type: Some(args[*k].0.clone()) }).collect();
        let options_: Vec<FunctionOption> = o.iter().map(|k| opts[*k].0.clone()).collect();
        if let Some(plan_rel::RelType::Rel(t)) = plan.relations[0].rel_type.as_mut() {
            match t.rel_type.as_mut() {
                Some(RelType::Aggregate(g)) => {
                    let m = g.measures[0].measure.as_mut().unwrap();
                    (m.arguments, m.options) = (arguments, options_);
                }
                Some(RelType::Filter(f)) => {
                    if let Some(RexType::ScalarFunction(f)) = f.condition.as_mut().unwrap().rex_type.as_mut() {
                        (f.arguments, f.options) = (arguments, options_);
                    }
                }
                _ => {}
            }
        }
        let parts: Vec<&str> = a.iter().map(|k| args[*k].1).chain(o.iter().map(|k| opts[*k].1)).collect();
        let want = doc.text(&Opts::default()).replace("count()", &format!("count({})", parts.join(", ")));
        case.state(&want);
        let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), reg, &want) else { return };
        case.trace();
        if errs.is_empty() && text != want {
            case.fail("hidden", &format!("formatted as:\n{text}"), &want);
        }
    });
}
