//! C14: extension arguments reach handlers exactly as written, and back.
use std::cell::RefCell;

use crate::common::{format, options, parse, rejected, round_trip};
use crate::engine::{Case, Ctx, Radix, guarded, seq_count, seq_decode};
use crate::ext::{ARG_NAMES, registry, value_of};
use crate::model::*;
use crate::pools::{doc1, few_types, null_lit, read};
use substrait::proto;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, EnumValue, Explainable, Expr, ExtensionArgs, ExtensionColumn, ExtensionContext, ExtensionError,
    ExtensionRegistry, ExtensionType, ExtensionValue, TupleValue,
};

/// Where an extension can stand in a plan.
pub const PLACES: [&str; 6] = ["leaf", "single", "multi", "table", "enhancement", "optimization"];

pub fn place(p: Pay, k: usize) -> Doc {
    let mut f = rel(Op::Filter(lit(V::Bool(true))), vec![read(1)]);
    doc1(match PLACES[k] {
        "leaf" => rel(Op::Cross, vec![rel(Op::ExtLeaf(p), vec![]), read(1)]),
        "single" => rel(Op::ExtSingle(p), vec![read(2)]),
        "multi" => rel(Op::ExtMulti(p), vec![read(2), read(1)]),
        "table" => rel(Op::Cross, vec![rel(Op::ReadExt(vec![("c".into(), simple("i64"))], p), vec![]), read(1)]),
        "enhancement" => {
            f.enh = Some(p);
            f
        }
        _ => {
            f.opts = vec![p];
            f
        }
    })
}

/// The line of the extension in the document's text.
fn ext_line(k: usize, l: &str) -> bool {
    let l = l.trim_start();
    let p = ["ExtensionLeaf", "ExtensionSingle", "ExtensionMulti", "+ Ext", "+ Enh", "+ Opt"][k];
    l.starts_with(p)
}

fn call(args: Vec<Ex>) -> Ex {
    Ex::Call(1, args, simple("i64"))
}

/// One value of every kind and of every corner of it.
pub fn values() -> Vec<Arg> {
    let typed = |v: V| Arg::Ex(Ex::Lit(Lit { v, null: false }));
    vec![
        Arg::Str("".into()),
        Arg::Str("it's \\ \"x\"\n, b=1 => ]".into()),
        Arg::Int(0),
        Arg::Int(i64::MIN),
        Arg::Int(i64::MAX),
        Arg::Float(1.0),
        Arg::Float(-0.0),
        Arg::Float(5e-324),
        Arg::Float(f64::MAX),
        Arg::Bool(true),
        Arg::Bool(false),
        Arg::Null,
        Arg::Enum("A_1".into()),
        Arg::Enum("null".into()),
        Arg::Tuple(vec![]),
        Arg::Tuple(vec![Arg::Int(7)]),
        Arg::Tuple(vec![Arg::Str("x".into()), Arg::Tuple(vec![Arg::Null, Arg::Tuple(vec![])])]),
        Arg::Tuple(vec![Arg::Enum("B".into()), Arg::Ex(Ex::Ref(1)), Arg::Float(2.5)]),
        Arg::Ex(Ex::Ref(0)),
        Arg::Ex(call(vec![Ex::Ref(0), int(3)])),
        Arg::Ex(Ex::Cast(Box::new(int(1)), 1, simple("i8"))),
        Arg::Ex(Ex::If(vec![(Ex::Ref(0), int(1))], Box::new(int(2)))),
        typed(V::I32(7)),
        typed(V::Date(0)),
        Arg::Ex(Ex::Lit(Lit { v: V::Str("y".into()), null: true })),
        Arg::Ex(Ex::Lit(null_lit(simple("i64").nullable()))),
    ]
}

pub fn columns() -> Vec<Col> {
    vec![
        Col::Named("c".into(), simple("i64")),
        Col::Named("odd name".into(), list(simple("string").nullable()).nullable()),
        Col::Named("u".into(), udt(1, vec![simple("i64")])),
        Col::Ex(Ex::Ref(0)),
        Col::Ex(call(vec![Ex::Ref(1), int(3)])),
        Col::Ex(Ex::Cast(Box::new(Ex::Ref(0)), 0, simple("i8"))),
        // The same words as a name and as a value.
        Col::Named("null".into(), simple("i64")),
        Col::Ex(lit(V::Null(simple("i64").nullable()))),
        Col::Named("true".into(), simple("boolean").nullable()),
        Col::Ex(Ex::Lit(Lit { v: V::Bool(true), null: true })),
        Col::Ex(lit(V::Bool(false))),
    ]
}

/// What a handler asks for.
#[derive(Clone, Copy, PartialEq, Debug)]
enum As {
    Any,
    Str,
    Int,
    Float,
    Bool,
    Enum,
    Tuple,
    Expr,
}

const AS: [As; 8] = [As::Any, As::Str, As::Int, As::Float, As::Bool, As::Enum, As::Tuple, As::Expr];

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Skip,
    Get,
    Expect,
    Elements,
}

#[derive(Clone, Default, Debug)]
struct Plan {
    positional: bool,
    named: Vec<(&'static str, How, As2)>,
}

/// `As` with a default, for `Plan`.
type As2 = As;

thread_local! {
    static WANT: RefCell<Plan> = RefCell::default();
    static GOT: RefCell<Vec<String>> = RefCell::default();
    static GIVE: RefCell<Option<Result<ExtensionArgs, ExtensionError>>> = const { RefCell::new(None) };
    static DECODE_FAILS: RefCell<bool> = const { RefCell::new(false) };
}

/// A handler that does as it is told.
struct Told;

const TOLD: &str = "Told";
const TOLD_URL: &str = "type.googleapis.com/mc.Told";

impl AnyConvertible for Told {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(TOLD_URL.to_string(), vec![1]))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        if DECODE_FAILS.with_borrow(|d| *d) || any.value != [1] {
            return Err(ExtensionError::Custom("told to fail".into()));
        }
        Ok(Told)
    }
    fn type_url() -> String {
        TOLD_URL.into()
    }
}

fn shown(v: &ExtensionValue) -> String {
    match v {
        ExtensionValue::Expr(e) => format!("expr {:?}", e.as_proto()),
        ExtensionValue::Tuple(t) => format!("({})", t.iter().map(shown).collect::<Vec<_>>().join(",")),
        v => format!("{v:?}"),
    }
}

impl Explainable for Told {
    fn name() -> &'static str {
        TOLD
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let plan = WANT.with_borrow(|w| w.clone());
        let mut got = vec![];
        if plan.positional {
            got.push(args.positional().iter().map(shown).collect::<Vec<_>>().join(";"));
        }
        macro_rules! ask {
            ($name:expr, $how:expr, $t:ty, $show:expr) => {{
                let show = $show;
                match $how {
                    How::Skip => "skipped".to_string(),
                    How::Get => args.get_named::<$t>($name)?.map(show).unwrap_or("absent".into()),
                    How::Expect => show(args.expect_named::<$t>($name)?),
                    How::Elements => match args.get_named_tuple::<$t>($name)? {
                        Some(v) => v.into_iter().map(show).collect::<Vec<String>>().join(","),
                        None => "absent".into(),
                    },
                }
            }};
        }
        for (name, how, t) in plan.named {
            got.push(match t {
                As::Any if how == How::Skip => "skipped".into(),
                As::Any => args.get_named_arg(name).map(shown).unwrap_or("absent".into()),
                As::Str => ask!(name, how, &str, |s: &str| format!("{:?}", s)),
                As::Int => ask!(name, how, i64, |i: i64| i.to_string()),
                As::Float => ask!(name, how, f64, |f: f64| format!("{:x}", f.to_bits())),
                As::Bool => ask!(name, how, bool, |b: bool| b.to_string()),
                As::Enum => ask!(name, how, EnumValue, |e: EnumValue| e.0),
                As::Tuple => ask!(name, how, &TupleValue, |t: &TupleValue| t.iter().map(shown).collect::<Vec<_>>().join(",")),
                As::Expr => ask!(name, how, Expr, |e: Expr| format!("{:?}", e.as_proto())),
            });
        }
        GOT.with_borrow_mut(|g| *g = got);
        Ok(Told)
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        GIVE.with_borrow(|g| g.clone()).unwrap_or_else(|| Ok(ExtensionArgs::default()))
    }
}

/// What reading the argument as `t` gives; `None` for a wrong kind.
fn converted(t: As, a: &Arg) -> Option<String> {
    let expr = |e: Ex| Some(format!("{:?}", ex_proto(&e)));
    match (t, a) {
        (As::Any, a) => Some(shown(&value_of(a))),
        (As::Str, Arg::Str(s)) => Some(format!("{s:?}")),
        (As::Int, Arg::Int(i)) => Some(i.to_string()),
        (As::Float, Arg::Float(f)) => Some(format!("{:x}", f.to_bits())),
        (As::Bool, Arg::Bool(b)) => Some(b.to_string()),
        (As::Enum, Arg::Enum(e)) => Some(e.clone()),
        (As::Tuple, Arg::Tuple(v)) => Some(v.iter().map(|a| shown(&value_of(a))).collect::<Vec<_>>().join(",")),
        (As::Expr, Arg::Ex(e)) => expr(e.clone()),
        // Scalars may be read as the literal they spell.
        (As::Expr, Arg::Int(i)) => expr(int(*i)),
        (As::Expr, Arg::Float(f)) => expr(lit(V::F64(*f))),
        (As::Expr, Arg::Bool(b)) => expr(lit(V::Bool(*b))),
        (As::Expr, Arg::Str(s)) => expr(lit(V::Str(s.clone()))),
        _ => None,
    }
}

fn wanted(how: How, t: As, a: Option<&Arg>) -> Option<String> {
    match (how, a) {
        (How::Skip, None) => Some("skipped".into()),
        // Not read, so not accepted.
        (How::Skip, Some(_)) => None,
        (How::Get | How::Elements, None) => Some("absent".into()),
        (How::Expect, None) => if t == As::Any { Some("absent".into()) } else { None },
        (_, Some(a)) if t == As::Any => converted(t, a),
        (How::Elements, Some(Arg::Tuple(v))) => v.iter().map(|a| converted(t, a)).collect::<Option<Vec<_>>>().map(|v| v.join(",")),
        (How::Elements, Some(_)) => None,
        (How::Get | How::Expect, Some(a)) => converted(t, a),
    }
}

fn told_registry() -> ExtensionRegistry {
    let mut r = registry();
    r.register_relation::<Told>().unwrap();
    r.register_extension_table::<Told>().unwrap();
    r.register_enhancement::<Told>().unwrap();
    r.register_optimization::<Told>().unwrap();
    r
}

/// The text of a document with extension number 0 replaced by `Told`.
fn told_text(args: &Args, k: usize) -> String {
    place(Pay { id: 0, args: args.clone() }, k).text(&Opts::default()).replace("RecA", TOLD)
}

fn ext_args(a: &Args) -> ExtensionArgs {
    let mut x = ExtensionArgs::default();
    for p in &a.pos {
        x.push(value_of(p));
    }
    for (n, v) in &a.named {
        x.insert(n.clone(), value_of(v));
    }
    x
}

/// Hand the arguments to the handler, as text and through the registry.
fn ask(case: &mut Case, want: Plan, args: &Args, k: usize, reg: &ExtensionRegistry) {
    let read_all = |n: &str| args.named.iter().find(|(m, _)| m == n).map(|(_, a)| a);
    let mut expected: Option<Vec<String>> = Some(vec![]);
    let mut push = |s: Option<String>| match (s, &mut expected) {
        (Some(s), Some(v)) => v.push(s),
        (None, e) => *e = None,
        _ => {}
    };
    if want.positional {
        push(Some(args.pos.iter().map(|a| shown(&value_of(a))).collect::<Vec<_>>().join(";")));
    } else if !args.pos.is_empty() {
        push(None);
    }
    for (n, how, t) in &want.named {
        push(wanted(*how, *t, read_all(n)));
    }
    for (n, _) in &args.named {
        if !want.named.iter().any(|(m, _, _)| m == n) {
            push(None);
        }
    }
    let text = told_text(args, k);
    case.state(&format!("{want:?}\n{text}"));
    WANT.with_borrow_mut(|w| *w = want.clone());
    GOT.with_borrow_mut(|g| g.clear());
    let Some(parsed) = parse(case, &text, reg) else { return };
    case.trace();
    judge(case, "text", &text, parsed.err().map(|e| e.to_string()), &expected, &want);
    // The same through the registry and directly.
    let x = ext_args(args);
    for direct in [true, false] {
        GOT.with_borrow_mut(|g| g.clear());
        case.step(1);
        case.trace();
        let r = guarded(|| {
            if direct {
                x.parse::<Told>().map(|_| ())
            } else {
                match PLACES[k] {
                    "table" => reg.parse_extension_table(TOLD, &x).map(|_| ()),
                    "enhancement" => reg.parse_enhancement(TOLD, &x).map(|_| ()),
                    "optimization" => reg.parse_optimization(TOLD, &x).map(|_| ()),
                    _ => reg.parse_extension(TOLD, &x).map(|_| ()),
                }
            }
        });
        match r {
            Ok(r) => judge(case, if direct { "args" } else { "registry" }, &text, r.err().map(|e| e.to_string()), &expected, &want),
            Err(p) => case.fail("panic", &p, &text),
        }
    }
}

fn judge(case: &mut Case, via: &str, text: &str, error: Option<String>, expected: &Option<Vec<String>>, want: &Plan) {
    let got = GOT.with_borrow(|g| g.clone());
    match (error, expected) {
        (Some(_), None) => case.outcome("refused"),
        (None, Some(e)) if *e == got => case.outcome("as written"),
        (None, Some(e)) => case.fail("other-arguments", &format!("{via}: {want:?} received {got:?} instead of {e:?}"), text),
        (None, None) => case.fail("accepted", &format!("{via}: {want:?} should be refused, but received {got:?}"), text),
        (Some(x), Some(_)) => case.fail("rejected", &format!("{via}: {want:?} refused: {x}"), text),
    }
}

/// Arguments a handler returns that no text denotes, with the text around them.
fn unwritable() -> Vec<(&'static str, ExtensionArgs)> {
    let err = || ExtensionValue::Error(ExtensionError::Custom("no such thing".into()));
    let bad: Vec<(&'static str, ExtensionValue)> = vec![
        ("error", err()),
        ("nan", ExtensionValue::Float(f64::NAN)),
        ("inf", ExtensionValue::Float(f64::INFINITY)),
        ("-inf", ExtensionValue::Float(f64::NEG_INFINITY)),
        ("enum", ExtensionValue::Enum("not a name".into())),
        ("empty enum", ExtensionValue::Enum("".into())),
        ("no expression", ExtensionValue::Expr(Expr::from(proto::Expression { rex_type: None }))),
        ("unknown function", ExtensionValue::Expr(Expr::from(ex_proto(&Ex::Call(4711, vec![], simple("i64")))))),
        ("nested error", ExtensionValue::Tuple(TupleValue::from(vec![ExtensionValue::Integer(1), err()]))),
        ("nested nan", ExtensionValue::Tuple(TupleValue::from(vec![ExtensionValue::Tuple(TupleValue::from(vec![ExtensionValue::Float(f64::NAN)]))]))),
    ];
    let mut v = vec![];
    for (n, b) in bad {
        for at in 0..4 {
            let mut a = ExtensionArgs::default();
            let good = |i: i64| ExtensionValue::Integer(70 + i);
            match at {
                0 => a.positional = vec![b.clone(), good(1)],
                1 => a.positional = vec![good(1), b.clone()],
                2 => {
                    a.positional = vec![good(1)];
                    a.insert("a", b.clone());
                    a.insert("b", good(2));
                }
                _ => {
                    a.insert("a", good(2));
                    a.insert("b", b.clone());
                }
            }
            v.push((n, a));
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    bundled(ctx);
    look_alikes(ctx);
    crate::words::arguments(ctx);
    let reg = told_registry();
    let vals = values();
    let cols = columns();
    let nv = vals.len() as u64;
    // Every sequence of positional values, in every place.
    let most = ctx.pick(2, 3);
    ctx.space("positional", seq_count(nv, most) * 6, |i, case| {
        let mut r = Radix(i);
        let k = r.take(6);
        let pos = seq_decode(r.0, nv).iter().map(|x| vals[*x].clone()).collect();
        let args = Args { pos, ..Args::default() };
        round_trip(case, &place(Pay { id: 1, args }, k), &reg);
    });
    // Every short enumeration name, and every character first or last in one.
    let mut enums: Vec<String> = vec![];
    for i in 0..seq_count(5, 3) {
        let rest: String = seq_decode(i, 5).iter().map(|k| ['a', 'Z', '_', '0', '9'][*k]).collect();
        enums.extend([format!("a{rest}"), format!("Z{rest}")]);
    }
    for c in (0u8..128).map(char::from).filter(|c| c.is_ascii_alphanumeric()) {
        if c.is_ascii_alphabetic() {
            enums.push(format!("{c}_Value"));
        }
        enums.push(format!("Value_{c}"));
    }
    ctx.space("enum-names", enums.len() as u64 * 18, |i, case| {
        let mut r = Radix(i);
        let k = r.take(6);
        let spot = r.take(3);
        let e = Arg::Enum(r.pick(&enums).clone());
        let args = match spot {
            0 => Args { pos: vec![e], ..Args::default() },
            1 => Args { named: vec![(ARG_NAMES[0].into(), e)], ..Args::default() },
            _ => Args { pos: vec![Arg::Tuple(vec![e, Arg::Int(1)])], ..Args::default() },
        };
        round_trip(case, &place(Pay { id: 1, args }, k), &reg);
    });
    // Every pair of named values under every pair of names, after 0..=2 others.
    let few: Vec<Arg> = if ctx.quick() { vals.iter().step_by(3).cloned().collect() } else { vals.clone() };
    let names = ARG_NAMES.len();
    ctx.space("named", (names * names * few.len() * few.len() * 3 * 6) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, n) = (r.take(6), r.take(3));
        let (a, b) = (r.take(names), r.take(names));
        let (x, y) = (r.pick(&few).clone(), r.pick(&few).clone());
        let pos = vals.iter().skip(a * 3).take(n).cloned().collect();
        if a == b {
            let args = Args {
                pos,
                named: vec![(ARG_NAMES[a].into(), x)],
                cols: vec![],
            };
            // Given twice.
            let d = place(Pay { id: 0, args: args.clone() }, k);
            let o = Opts::default();
            let w = W { env: &d.env, o: &o };
            let once = format!("{}={}", name_text(ARG_NAMES[a]), w.arg(&args.named[0].1));
            let twice = format!("{once}, {}={}", name_text(ARG_NAMES[a]), w.arg(&y));
            let text = d.text(&o);
            rejected(case, &text.replacen(&once, &twice, 1), "a name is given twice", &reg);
            return;
        }
        let args = Args {
            pos,
            named: vec![(ARG_NAMES[a].into(), x), (ARG_NAMES[b].into(), y)],
            cols: vec![],
        };
        // The handler hands them back in its own order.
        let d = place(Pay { id: 0, args: args.clone() }, k);
        if a < b {
            round_trip(case, &d, &reg);
        } else {
            let text = d.text(&Opts::default());
            case.state(&text);
            crate::common::parses_to(case, &text, &d.proto(), &reg);
        }
    });
    // A name given twice, at every two positions of a longer list.
    let n = ARG_NAMES.len();
    ctx.space("repeated-names", (n * n * n * 6) as u64, |i, case| {
        let mut r = Radix(i);
        let k = r.take(6);
        let (len, a, b) = (1 + r.take(n), r.take(n), r.take(n));
        if a >= len || b > len {
            return;
        }
        let named: Vec<_> = (0..len).map(|j| (ARG_NAMES[j].to_string(), Arg::Int(j as i64))).collect();
        let d = place(Pay { id: 0, args: Args { named: named.clone(), ..Args::default() } }, k);
        let o = Opts::default();
        let w = W { env: &d.env, o: &o };
        let spell = |(n, v): &(String, Arg)| format!("{}={}", name_text(n), w.arg(v));
        let once: Vec<String> = named.iter().map(spell).collect();
        let mut twice = once.clone();
        twice.insert(b, spell(&(ARG_NAMES[a].into(), Arg::Int(7))));
        let text = d.text(&o);
        let (once, twice) = (once.join(", "), twice.join(", "));
        if !text.contains(&once) {
            return case.fail("model", "the arguments are not in the text", &text);
        }
        rejected(case, &text.replacen(&once, &twice, 1), "a name is given twice", &reg);
    });
    // Every sequence of output columns.
    let nc = cols.len() as u64;
    let most = ctx.pick(3, 5);
    ctx.space("columns", seq_count(nc, most) * 3 * 4, |i, case| {
        let mut r = Radix(i);
        let (k, n) = (r.take(3), r.take(4));
        let args = Args {
            pos: if n & 1 == 1 { vec![Arg::Str("p".into())] } else { vec![] },
            named: if n & 2 == 2 { vec![("a".into(), Arg::Int(1))] } else { vec![] },
            cols: seq_decode(r.0, nc).iter().map(|x| cols[*x].clone()).collect(),
        };
        round_trip(case, &place(Pay { id: 2, args }, k), &reg);
    });
    let types = few_types();
    crate::sweeps::run(ctx, crate::sweeps::ARGUMENTS, ctx.pick(300, 700), ctx.pick(1025, 4097), &reg);
    ctx.space("column-types", (types.len() * 3) as u64, |i, case| {
        let mut r = Radix(i);
        let k = r.take(3);
        let args = Args {
            cols: vec![Col::Named("c".into(), r.pick(&types).clone()), Col::Ex(Ex::Ref(0))],
            ..Args::default()
        };
        round_trip(case, &place(Pay { id: 4, args }, k), &reg);
    });
    // Every value read as every kind, in every way.
    let hows = [How::Get, How::Expect, How::Elements];
    ctx.space("typed", (AS.len() * 3 * (vals.len() + 1) * 6) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, t, how) = (r.take(6), *r.pick(&AS), *r.pick(&hows));
        let at = r.take(vals.len() + 1);
        let named = vals.get(at).map(|v| ("a".to_string(), v.clone())).into_iter().collect();
        let args = Args { named, ..Args::default() };
        let want = Plan {
            positional: false,
            named: vec![("a", how, t)],
        };
        ask(case, want, &args, k, &reg);
    });
    // Elements of tuples.
    ctx.space("elements", AS.len() as u64 * nv * nv * ctx.pick(2, 6), |i, case| {
        let mut r = Radix(i);
        let (t, a, b) = (*r.pick(&AS), r.pick(&vals).clone(), r.pick(&vals).clone());
        let k = r.take(6);
        let args = Args {
            named: vec![("a".into(), Arg::Tuple(vec![a, b]))],
            ..Args::default()
        };
        let want = Plan {
            positional: false,
            named: vec![("a", How::Elements, t)],
        };
        ask(case, want, &args, k, &reg);
    });
    // Which arguments are given, and which are read.
    let given: Vec<Vec<&'static str>> = {
        let n = ["a", "b", "c"];
        let mut v: Vec<Vec<&'static str>> = vec![vec![]];
        for x in 0..3 {
            v.push(vec![n[x]]);
            for y in (0..3).filter(|y| *y != x) {
                v.push(vec![n[x], n[y]]);
                v.push(vec![n[x], n[y], n[3 - x - y]]);
            }
        }
        v
    };
    let modes = [How::Skip, How::Get, How::Expect];
    // Names that share letters, case or spelling with each other.
    let triples = [["a", "b", "c"], ["a", "ab", "abc"], ["ba", "a", "bab"], ["a", "A", "a "], ["x y", "x", "y"], ["e\u{301}", "\u{e9}", "e"], ["_", "_a", "a_"], ["", "__", ".a"], ["#a", "$0", "@type"], ["0", "-a", "~"]];
    ctx.space("consumed", (given.len() * 3 * 27 * 2 * 6 * triples.len()) as u64, |i, case| {
        let mut r = Radix(i);
        let names = *r.pick(&triples);
        let nth = |n: &str| names[["a", "b", "c"].iter().position(|x| *x == n).expect("name")];
        let (k, g, np, pos) = (r.take(6), r.pick(&given), r.take(3), r.take(2) == 1);
        let named: Vec<(&'static str, How, As)> = names.into_iter().map(|n| (n, *r.pick(&modes), As::Int)).collect();
        let args = Args {
            pos: (0..np).map(|i| Arg::Int(i as i64)).collect(),
            named: g.iter().enumerate().map(|(i, n)| (nth(n).to_string(), Arg::Int(10 + i as i64))).collect(),
            cols: vec![],
        };
        ask(case, Plan { positional: pos, named }, &args, k, &reg);
    });
    // Named before positional, holes, and other malformed lists.
    let bad = ["a=1, 2", "1,, 2", ", 1", "1,", "a=", "=1", "a=1, a=1", "_, 1", "1, _", "a=_", "a 1", "(1", "1)", "&", "&1", "a==1", "a=1 b=2", "1 2", "(1 2)", "((1)"];
    ctx.space("malformed", (bad.len() * 6) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, b) = (r.take(6), r.pick(&bad));
        let text = place(Pay { id: 0, args: Args { pos: vec![Arg::Int(4242)], ..Args::default() } }, k).text(&Opts::default());
        rejected(case, &text.replace("4242", b), "its argument list is malformed", &reg);
    });
    // Extensions that are not registered, or not for that use.
    let mut partial: Vec<(String, ExtensionRegistry)> = vec![("none".into(), ExtensionRegistry::new())];
    for n in 0..4 {
        let mut r = ExtensionRegistry::new();
        match n {
            0 => r.register_relation::<Told>().unwrap(),
            1 => r.register_extension_table::<Told>().unwrap(),
            2 => r.register_enhancement::<Told>().unwrap(),
            _ => r.register_optimization::<Told>().unwrap(),
        }
        partial.push((["relation", "table", "enhancement", "optimization"][n].into(), r));
    }
    ctx.space("unregistered", (partial.len() * 6 * 2) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, p, args) = (r.take(6), r.take(partial.len()), r.take(2));
        let own = [1, 1, 1, 2, 3, 4][k] == p;
        let args = Args {
            pos: (0..args).map(|i| Arg::Int(i as i64)).collect(),
            ..Args::default()
        };
        let text = told_text(&args, k);
        let (name, reg) = &partial[p];
        case.state(&format!("registered: {name}\n{text}"));
        WANT.with_borrow_mut(|w| {
            *w = Plan {
                positional: true,
                named: vec![],
            }
        });
        let Some(parsed) = parse(case, &text, reg) else { return };
        case.trace();
        if parsed.is_ok() != own {
            case.fail("registration", &format!("registered: {name}; parsed: {}", parsed.is_ok()), &text);
        }
        let kind = [ExtensionType::Relation, ExtensionType::ExtensionTable, ExtensionType::Enhancement, ExtensionType::Optimization];
        for (j, kind) in kind.into_iter().enumerate() {
            if reg.has_extension(kind, TOLD) != (p == j + 1) {
                case.fail("registration", &format!("registered: {name}; has_extension {j} is wrong"), &text);
            }
        }
        let d = told_doc(&args, k);
        faulty(case, &d, k, own.then_some(Ok(ext_args(&args))), &text, reg);
    });
    // A payload the handler cannot decode, or whose arguments it cannot give.
    ctx.space("undecodable", 6 * 2, |i, case| {
        let mut r = Radix(i);
        let (k, decode) = (r.take(6), r.take(2) == 1);
        let text = told_text(&Args::default(), k);
        case.state(&format!("decode {decode}\n{text}"));
        DECODE_FAILS.with_borrow_mut(|d| *d = decode);
        let give = Err(ExtensionError::Custom("told to fail".into()));
        faulty(case, &told_doc(&Args::default(), k), k, Some(give), &text, &reg);
        DECODE_FAILS.with_borrow_mut(|d| *d = false);
    });
    // Single values without text: a token in their place, the rest as it is.
    let un = unwritable();
    ctx.space("unwritable", (un.len() * 6) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, (name, args)) = (r.take(6), r.pick(&un));
        let plan = told_doc(&Args::default(), k);
        let desc = format!("{name} {args:?} as {}", PLACES[k]);
        case.state(&desc);
        GIVE.with_borrow_mut(|g| *g = Some(Ok(args.clone())));
        let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), &reg, &desc) else { return };
        case.trace();
        let lines: Vec<&str> = text.lines().filter(|l| ext_line(k, l)).collect();
        let [line] = lines.as_slice() else {
            case.fail("hidden", &format!("the extension is shown {} times:\n{text}", lines.len()), &desc);
            return;
        };
        if errs.is_empty() || !line.contains("!{") {
            case.fail("unreported", &format!("{line}\nerrors {errs:?}"), &desc);
        }
        for keep in [71, 72] {
            let there = args.positional.iter().chain(args.named.values()).any(|v| matches!(v, ExtensionValue::Integer(x) if *x == keep));
            if there && !line.contains(&keep.to_string()) {
                case.fail("hidden", &format!("{keep} is not shown: {line}"), &desc);
            }
        }
        for n in args.named.keys() {
            if !line.contains(&format!("{n}=")) {
                case.fail("hidden", &format!("{n} is not shown: {line}"), &desc);
            }
        }
        others(case, &text, k, &desc);
    });
    // Columns without text.
    let badcols: Vec<ExtensionColumn> = vec![
        ExtensionColumn::Named {
            name: "bad".into(),
            r#type: proto::Type { kind: None },
        },
        ExtensionColumn::Expr(Expr::from(proto::Expression { rex_type: None })),
        ExtensionColumn::Expr(Expr::from(ex_proto(&Ex::Call(4711, vec![], simple("i64"))))),
    ];
    ctx.space("unwritable-columns", (badcols.len() * 3 * 3) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, c, at) = (r.take(3), r.pick(&badcols), r.take(3));
        let mut args = ExtensionArgs::default();
        args.output_columns = (0..2).map(|i| ExtensionColumn::field(70 + i)).collect();
        args.output_columns.insert(at, c.clone());
        let desc = format!("{args:?} as {}", PLACES[k]);
        case.state(&desc);
        GIVE.with_borrow_mut(|g| *g = Some(Ok(args)));
        let plan = told_doc(&Args::default(), k);
        let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), &reg, &desc) else { return };
        case.trace();
        let line = text.lines().find(|l| ext_line(k, l)).unwrap_or("");
        if errs.is_empty() || !line.contains("!{") || !line.contains("$70") || !line.contains("$71") {
            case.fail("unreported", &format!("{line}\nerrors {errs:?}"), &desc);
        }
        others(case, &text, k, &desc);
    });
    // Addenda have no place for columns: reported, whatever their number.
    ctx.space("addendum-columns", 3 * 4 * 3, |i, case| {
        let mut r = Radix(i);
        let (k, n, with) = (3 + r.take(3), 1 + r.take(4), r.take(3));
        let mut args = ExtensionArgs::default();
        if with > 0 {
            args.positional.push(ExtensionValue::Integer(7));
        }
        if with > 1 {
            args.named.insert("n".into(), ExtensionValue::Boolean(true));
        }
        args.output_columns = (0..n as i32).map(ExtensionColumn::field).collect();
        let desc = format!("{args:?} as {}", PLACES[k]);
        case.state(&desc);
        GIVE.with_borrow_mut(|g| *g = Some(Ok(args)));
        let plan = told_doc(&Args::default(), k);
        let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), &reg, &desc) else { return };
        case.trace();
        let line = text.lines().find(|l| ext_line(k, l)).unwrap_or("");
        if errs.is_empty() || !line.contains("!{") {
            case.fail("unreported", &format!("{line}\nerrors {errs:?}"), &desc);
        }
        others(case, &text, k, &desc);
    });
    conversions(ctx);
}

fn told_doc(args: &Args, k: usize) -> proto::Plan {
    // The message of a recording extension, with `Told`'s own payload.
    use prost::Message;
    let d = place(Pay { id: 0, args: args.clone() }, k);
    let from = crate::ext::any_of(&Pay { id: 0, args: args.clone() });
    let old = proto_any(&from.type_url, &from.value);
    let new = proto_any(TOLD_URL, &[1]);
    let mut p = d.proto();
    swap(&mut p, &old, &new);
    debug_assert!(p.encoded_len() > 0);
    p
}

fn proto_any(url: &str, value: &[u8]) -> pbjson_types::Any {
    pbjson_types::Any {
        type_url: url.into(),
        value: value.to_vec().into(),
    }
}

/// Put another payload wherever the given one stands.
pub fn swap(p: &mut proto::Plan, old: &pbjson_types::Any, new: &pbjson_types::Any) {
    use proto::rel::RelType as R;
    fn ext(e: &mut Option<proto::extensions::AdvancedExtension>, old: &pbjson_types::Any, new: &pbjson_types::Any) {
        if let Some(e) = e {
            for a in e.optimization.iter_mut().chain(e.enhancement.iter_mut()) {
                if a == old {
                    *a = new.clone();
                }
            }
        }
    }
    fn one(a: &mut Option<pbjson_types::Any>, old: &pbjson_types::Any, new: &pbjson_types::Any) {
        if a.as_ref() == Some(old) {
            *a = Some(new.clone());
        }
    }
    fn walk(r: &mut proto::Rel, old: &pbjson_types::Any, new: &pbjson_types::Any) {
        match &mut r.rel_type {
            Some(R::Filter(f)) => {
                ext(&mut f.advanced_extension, old, new);
                if let Some(i) = &mut f.input {
                    walk(i, old, new);
                }
            }
            Some(R::Read(f)) => {
                if let Some(proto::read_rel::ReadType::ExtensionTable(t)) = &mut f.read_type {
                    one(&mut t.detail, old, new);
                }
            }
            Some(R::Cross(c)) => {
                for i in [&mut c.left, &mut c.right].into_iter().flatten() {
                    walk(i, old, new);
                }
            }
            Some(R::ExtensionLeaf(e)) => one(&mut e.detail, old, new),
            Some(R::ExtensionSingle(e)) => one(&mut e.detail, old, new),
            Some(R::ExtensionMulti(e)) => one(&mut e.detail, old, new),
            _ => {}
        }
    }
    for r in &mut p.relations {
        match &mut r.rel_type {
            Some(proto::plan_rel::RelType::Rel(r)) => walk(r, old, new),
            Some(proto::plan_rel::RelType::Root(r)) => {
                if let Some(i) = &mut r.input {
                    walk(i, old, new);
                }
            }
            None => {}
        }
    }
}

/// Every line but the extension's own, and the output columns above it, is as
/// in a document without the fault.
fn others(case: &mut Case, text: &str, k: usize, desc: &str) {
    let strip = |t: &str| -> Vec<String> {
        t.lines()
            .filter(|l| !ext_line(k, l))
            .map(|l| if l.trim_start().starts_with("Cross") { l.split('[').next().unwrap_or("").to_string() } else { l.to_string() })
            .collect()
    };
    let want = strip(&told_text(&Args::default(), k));
    let got = strip(text);
    if want != got {
        case.fail("not-local", &format!("other lines changed:\n{text}"), desc);
    }
}

/// Format with what the handler is told to give; `None` when it is not asked.
fn faulty(case: &mut Case, plan: &proto::Plan, k: usize, give: Option<Result<ExtensionArgs, ExtensionError>>, text: &str, reg: &ExtensionRegistry) {
    let good = matches!(give, Some(Ok(_)));
    GIVE.with_borrow_mut(|g| *g = give);
    let Some((got, errs)) = format(case, plan, &options(&Opts::default()), reg, text) else { return };
    case.trace();
    if good {
        if got != *text || !errs.is_empty() {
            case.fail("other-text", &format!("formatted as:\n{got}\nerrors {errs:?}"), text);
        }
        return;
    }
    let lines: Vec<&str> = got.lines().filter(|l| ext_line(k, l)).collect();
    if errs.is_empty() || lines.len() != 1 || !lines[0].contains("!{") {
        case.fail("unreported", &format!("formatted as:\n{got}\nerrors {errs:?}"), text);
    }
    others(case, &got, k, text);
}

// ---------------------------------------------------------------------------
// The argument, payload and schema conversions a handler is written with.

/// A message with the conversions every protobuf message gets.
#[derive(Clone, PartialEq, prost::Message)]
pub struct Note {
    #[prost(int64, tag = "1")]
    pub n: i64,
    #[prost(string, tag = "2")]
    pub s: String,
    #[prost(bool, repeated, tag = "3")]
    pub b: Vec<bool>,
    #[prost(double, optional, tag = "4")]
    pub f: Option<f64>,
}

impl prost::Name for Note {
    const NAME: &'static str = "Note";
    const PACKAGE: &'static str = "mc";
    fn full_name() -> String {
        "mc.Note".into()
    }
    fn type_url() -> String {
        NOTE_URL.into()
    }
}

const NOTE_URL: &str = "type.googleapis.com/mc.Note";

impl Explainable for Note {
    fn name() -> &'static str {
        "Note"
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let b = args.positional().iter().map(bool::try_from).collect::<Result<_, _>>()?;
        Ok(Note {
            n: args.get_named("n")?.unwrap_or_default(),
            s: args.get_named::<String>("s")?.unwrap_or_default(),
            b,
            f: args.get_named("f")?,
        })
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        for b in &self.b {
            a.push(*b);
        }
        if self.n != 0 {
            a.insert("n", self.n);
        }
        if !self.s.is_empty() {
            a.insert("s", self.s.as_str());
        }
        if let Some(f) = self.f {
            a.insert("f", f);
        }
        Ok(a)
    }
}

fn note_args(n: &Note) -> Args {
    let mut a = Args::default();
    a.pos = n.b.iter().map(|b| Arg::Bool(*b)).collect();
    if n.n != 0 {
        a.named.push(("n".into(), Arg::Int(n.n)));
    }
    if !n.s.is_empty() {
        a.named.push(("s".into(), Arg::Str(n.s.clone())));
    }
    if let Some(f) = n.f {
        a.named.push(("f".into(), Arg::Float(f)));
    }
    a
}

fn note_registry() -> ExtensionRegistry {
    let mut r = registry();
    r.register_relation::<Note>().unwrap();
    r.register_extension_table::<Note>().unwrap();
    r.register_enhancement::<Note>().unwrap();
    r.register_optimization::<Note>().unwrap();
    r
}

/// The plan of `place` with this payload in the extension's place.
fn plan_with(k: usize, url: &str, value: &[u8]) -> proto::Plan {
    let pay = Pay { id: 0, args: Args::default() };
    let from = crate::ext::any_of(&pay);
    let mut p = place(pay, k).proto();
    swap(&mut p, &proto_any(&from.type_url, &from.value), &proto_any(url, value));
    p
}

/// Formatting a plan with a `Note` payload: the message's arguments when the
/// bytes spell one, otherwise a token; both ways as protobuf itself decodes it.
fn note_payload(case: &mut Case, k: usize, url: &str, bytes: &[u8], reg: &ExtensionRegistry) {
    use prost::Message;
    let desc = format!("{url} {bytes:?} as {}", PLACES[k]);
    case.state(&desc);
    let plan = plan_with(k, url, bytes);
    let want = if url == NOTE_URL { Note::decode(bytes).ok() } else { None };
    // NaN and infinity have no spelling in the text; they are judged elsewhere.
    if want.as_ref().and_then(|n| n.f).is_some_and(|f| !f.is_finite()) {
        return;
    }
    let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), reg, &desc) else { return };
    case.trace();
    let direct = AnyRef::new(url, bytes).decode::<Note>();
    if direct.as_ref().ok() != want.as_ref() {
        case.fail("payload", &format!("decoded as {direct:?} instead of {want:?}"), &desc);
    }
    let Some(note) = want else {
        let lines: Vec<&str> = text.lines().filter(|l| ext_line(k, l)).collect();
        if errs.is_empty() || lines.len() != 1 || !lines[0].contains("!{") {
            case.fail("unreported", &format!("formatted as:\n{text}\nerrors {errs:?}"), &desc);
        }
        others(case, &text, k, &desc);
        case.outcome("token");
        return;
    };
    let expected = place(Pay { id: 0, args: note_args(&note) }, k).text(&Opts::default()).replace("RecA", "Note");
    if text != expected || !errs.is_empty() {
        case.fail("other-text", &format!("{note:?} formatted as:\n{text}\nerrors {errs:?}"), &desc);
        return;
    }
    case.outcome("shown");
    // Back to the message, in its canonical encoding.
    let Some(parsed) = parse(case, &text, reg) else { return };
    case.trace();
    match parsed {
        Ok(p) if p == plan_with(k, NOTE_URL, &note.encode_to_vec()) => {}
        Ok(p) => case.fail("other-plan", &format!("{text}\nparsed as {p:?}"), &desc),
        Err(e) => case.fail("rejected", &format!("{text}\n{e}"), &desc),
    }
}

/// Every way to make the value, with the value it is.
fn made(i: usize) -> Vec<(String, ExtensionValue, Arg)> {
    let mut v: Vec<(String, ExtensionValue, Arg)> = vec![];
    let ex = |e: &Ex| Expr::from(ex_proto(e));
    for n in [0, 1, -1, 10, i64::from(i32::MIN), 1 << 40, i64::MIN, i64::MAX] {
        v.push((format!("i64 {n}"), n.into(), Arg::Int(n)));
        v.push((format!("Expr from {n}"), Expr::from(n).into(), Arg::Ex(int(n))));
        v.push((format!("literal {n}"), crate::model::lit_proto(&Lit { v: V::I64(n), null: false }).into(), Arg::Ex(int(n))));
        v.push((format!("Vec {n}"), vec![n, n ^ 1].into(), Arg::Tuple(vec![Arg::Int(n), Arg::Int(n ^ 1)])));
    }
    for f in [0.0, -0.0, 1.0, 0.1, -2.5, 1e300, 5e-324, f64::MAX, f64::MIN] {
        v.push((format!("f64 {f}"), f.into(), Arg::Float(f)));
        v.push((format!("Expr from {f}"), Expr::from(f).into(), Arg::Ex(lit(V::F64(f)))));
        v.push((format!("Vec {f}"), vec![f].into(), Arg::Tuple(vec![Arg::Float(f)])));
    }
    for b in [true, false] {
        v.push((format!("bool {b}"), b.into(), Arg::Bool(b)));
        v.push((format!("Expr from {b}"), Expr::from(b).into(), Arg::Ex(lit(V::Bool(b)))));
        v.push((format!("Vec {b}"), vec![b, !b].into(), Arg::Tuple(vec![Arg::Bool(b), Arg::Bool(!b)])));
    }
    for s in ["", "x", "true", "1", "A_1", "a'b\\", "\u{e9}\n"] {
        v.push((format!("&str {s:?}"), s.into(), Arg::Str(s.into())));
        v.push((format!("String {s:?}"), s.to_string().into(), Arg::Str(s.into())));
        v.push((format!("Expr from &str {s:?}"), Expr::from(s).into(), Arg::Ex(lit(V::Str(s.into())))));
        v.push((format!("Expr from String {s:?}"), Expr::from(s.to_string()).into(), Arg::Ex(lit(V::Str(s.into())))));
        v.push((format!("Vec {s:?}"), vec![s, "z", s].into(), Arg::Tuple(vec![Arg::Str(s.into()), Arg::Str("z".into()), Arg::Str(s.into())])));
    }
    for n in [0, 1, 7, 1000, i32::MAX] {
        v.push((format!("field {n}"), Expr::field(n).into(), Arg::Ex(Ex::Ref(n))));
    }
    for e in [call(vec![Ex::Ref(0), int(3)]), Ex::Cast(Box::new(int(1)), 1, simple("i8")), lit(V::Date(3)), lit(V::Str("q".into()))] {
        v.push((format!("expression {e:?}"), ex_proto(&e).into(), Arg::Ex(e.clone())));
        v.push((format!("Expr {e:?}"), ex(&e).into(), Arg::Ex(e.clone())));
        v.push((format!("Vec of Expr {e:?}"), vec![ex(&e), ex(&e)].into(), Arg::Tuple(vec![Arg::Ex(e.clone()), Arg::Ex(e.clone())])));
    }
    v.push(("empty Vec".into(), Vec::<i64>::new().into(), Arg::Tuple(vec![])));
    let nested: Vec<Vec<i64>> = vec![vec![1], vec![], vec![2, 3]];
    let t = |v: Vec<i64>| Arg::Tuple(v.into_iter().map(Arg::Int).collect());
    v.push(("nested Vec".into(), nested.into(), Arg::Tuple(vec![t(vec![1]), t(vec![]), t(vec![2, 3])])));
    if i == 1 {
        // The same, collected one by one.
        for (n, x, a) in &mut v {
            if let (ExtensionValue::Tuple(t), Arg::Tuple(_)) = (&x, &a) {
                *n = format!("collected {n}");
                let again: TupleValue = t.clone().into_iter().collect();
                *x = ExtensionValue::Tuple(again);
            }
        }
    }
    v
}

fn kind_name(a: &Arg) -> &'static str {
    match a {
        Arg::Str(_) => "string",
        Arg::Int(_) => "integer",
        Arg::Float(_) => "float",
        Arg::Bool(_) => "boolean",
        Arg::Enum(_) => "enum",
        Arg::Tuple(_) => "tuple",
        Arg::Ex(_) => "expression",
        Arg::Null => "null",
    }
}

pub fn conversions(ctx: &Ctx) {
    use prost::Message;
    let reg = note_registry();
    // Messages of every shape, in every place, and back.
    let ns = [0, 1, -1, i64::MAX, i64::MIN];
    let ss = ["", "a", "it's \\ ,=\n", "\u{1f600}"];
    let bs = seq_count(2, ctx.pick(3, 6));
    let fs = [None, Some(0.0), Some(-0.0), Some(1.5), Some(5e-324)];
    ctx.space("messages", (ns.len() * ss.len() * fs.len() * 6) as u64 * bs, |i, case| {
        let mut r = Radix(i);
        let (k, n, s, f) = (r.take(6), *r.pick(&ns), *r.pick(&ss), *r.pick(&fs));
        let b = seq_decode(r.0, 2).into_iter().map(|b| b == 1).collect();
        let note = Note { n, s: s.into(), b, f };
        note_payload(case, k, NOTE_URL, &note.encode_to_vec(), &reg);
    });
    // Every short payload over the bytes that matter, also those that are no message.
    let alphabet = [0x00u8, 0x01, 0x08, 0x12, 0x18, 0x1a, 0x7f, 0x80, 0xff, 0x61];
    ctx.space("bytes", seq_count(alphabet.len() as u64, ctx.pick(3, 5)) * 6, |i, case| {
        let mut r = Radix(i);
        let k = r.take(6);
        let bytes: Vec<u8> = seq_decode(r.0, alphabet.len() as u64).into_iter().map(|b| alphabet[b]).collect();
        note_payload(case, k, NOTE_URL, &bytes, &reg);
    });
    // The type URL decides, character by character.
    let mut urls: Vec<String> = vec!["".into(), "mc.Note".into(), "/mc.Note".into(), format!("{NOTE_URL} "), format!("{NOTE_URL}x"), format!("/{NOTE_URL}"), "example.com/mc.Note".into(), "//mc.Note".into(), "a/b/mc.Note".into(), format!("example.com/{NOTE_URL}"), NOTE_URL.to_uppercase(), NOTE_URL.into()];
    for i in 0..NOTE_URL.len() {
        let mut u = NOTE_URL.to_string();
        u.remove(i);
        urls.push(u);
        let mut u = NOTE_URL.to_string();
        let flipped = u.remove(i).to_ascii_uppercase();
        u.insert(i, if flipped.is_ascii_uppercase() { flipped } else { '_' });
        if u != NOTE_URL {
            urls.push(u);
        }
    }
    ctx.space("type-urls", (urls.len() * 6) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, u) = (r.take(6), r.pick(&urls));
        note_payload(case, k, u, &Note { n: 5, ..Note::default() }.encode_to_vec(), &reg);
    });
    // Payloads between the three representations.
    let values: Vec<Vec<u8>> = vec![vec![], vec![0], vec![8, 5], (0..=255).collect(), vec![7; 5000]];
    ctx.space("payloads", (urls.len() * values.len()) as u64, |i, case| {
        let mut r = Radix(i);
        let (u, v) = (r.pick(&urls).clone(), r.pick(&values).clone());
        let desc = format!("{u:?} {} bytes", v.len());
        case.state(&desc);
        case.trace();
        let ours = Any::new(u.clone(), v.clone());
        let theirs = prost_types::Any { type_url: u.clone(), value: v.clone() };
        let json = proto_any(&u, &v);
        let ok = prost_types::Any::from(ours.clone()) == theirs
            && pbjson_types::Any::from(ours.clone()) == json
            && Any::from(theirs.clone()) == ours
            && Any::from(json.clone()) == ours
            && [AnyRef::from(&ours), AnyRef::from(&theirs), AnyRef::from(&json), ours.as_ref()].iter().all(|a| *a == AnyRef::new(&u, &v));
        if !ok {
            case.fail("payload", "a conversion changes the payload", &desc);
        }
    });
    // Values made every way, read every way.
    let all: Vec<_> = made(0).into_iter().chain(made(1)).collect();
    ctx.space("made", (all.len() * 6) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, (name, value, arg)) = (r.take(6), r.pick(&all));
        case.state(&format!("{name} as {}", PLACES[k]));
        case.trace();
        if shown(value) != shown(&value_of(arg)) {
            case.fail("value", &format!("is {} instead of {}", shown(value), shown(&value_of(arg))), name);
        }
        // Read as each kind.
        for t in AS {
            let got: Option<String> = match t {
                As::Any => Some(shown(value)),
                As::Str => {
                    let s = <&str>::try_from(value).ok().map(|s| format!("{s:?}"));
                    let owned = String::try_from(value).ok().map(|s| format!("{s:?}"));
                    let moved = String::try_from(value.clone()).ok().map(|s| format!("{s:?}"));
                    if s != owned || s != moved {
                        case.fail("value", "reads differently as str and as String", name);
                    }
                    s
                }
                As::Int => i64::try_from(value).ok().map(|i| i.to_string()),
                As::Float => f64::try_from(value).ok().map(|f| format!("{:x}", f.to_bits())),
                As::Bool => bool::try_from(value).ok().map(|b| b.to_string()),
                As::Enum => EnumValue::try_from(value).ok().map(|e| e.0),
                As::Tuple => <&TupleValue>::try_from(value).ok().map(|t| t.into_iter().map(shown).collect::<Vec<_>>().join(",")),
                As::Expr => Expr::try_from(value).ok().map(|e| format!("{:?}", e.to_proto())),
            };
            let want = converted(t, arg);
            if got != want {
                case.fail("value", &format!("read as {t:?} is {got:?} instead of {want:?}"), name);
            }
        }
        if let ExtensionValue::Tuple(t) = value {
            let n = match arg {
                Arg::Tuple(v) => v.len(),
                _ => usize::MAX,
            };
            if t.len() != n || t.is_empty() != (n == 0) || t.iter().count() != n || t.clone().into_iter().count() != n {
                case.fail("value", &format!("has {} elements instead of {n}", t.len()), name);
            }
        }
        if let ExtensionValue::Expr(e) = value {
            let want = match arg {
                Arg::Ex(Ex::Ref(n)) => Some(*n),
                _ => None,
            };
            let back: proto::Expression = e.clone().into();
            if e.as_direct_reference() != want || back != *e.as_proto() {
                case.fail("value", &format!("is a reference to {:?} instead of {want:?}", e.as_direct_reference()), name);
            }
        }
        // Written and handed back.
        let mut x = ExtensionArgs::default();
        x.positional.push(value.clone());
        x.named.insert("a".into(), value.clone());
        let written = Args {
            pos: vec![arg.clone()],
            named: vec![("a".into(), arg.clone())],
            cols: vec![],
        };
        let text = told_text(&written, k);
        let told = told_registry_cached();
        GIVE.with_borrow_mut(|g| *g = Some(Ok(x)));
        let Some((got, errs)) = format(case, &plan_with(k, TOLD_URL, &[1]), &options(&Opts::default()), &told, name) else { return };
        if got != text || !errs.is_empty() {
            case.fail("other-text", &format!("{name} as {} formatted as:\n{got}\nerrors {errs:?}", kind_name(arg)), &text);
        }
    });
    // Argument lists built up call by call.
    ctx.space("insertions", seq_count(9, ctx.pick(4, 5)), |i, case| {
        let mut x = ExtensionArgs::default();
        let (mut pos, mut named): (Vec<i64>, Vec<(&str, i64)>) = (vec![], vec![]);
        let ops = seq_decode(i, 9);
        case.state(&format!("{ops:?}"));
        case.trace();
        for (at, o) in ops.iter().enumerate() {
            let v = at as i64;
            if *o == 8 {
                x.push(v);
                pos.push(v);
                continue;
            }
            let n = ["a", "b", "ab", "A", "", " a", "\u{e9}", "e\u{301}"][*o];
            let old = x.insert(n, v);
            let was = named.iter_mut().find(|(m, _)| *m == n);
            let want = was.as_ref().map(|(_, v)| *v);
            match was {
                Some(e) => e.1 = v,
                None => named.push((n, v)),
            }
            if old.as_ref().and_then(|o| i64::try_from(o).ok()) != want {
                case.fail("insert", &format!("returned {old:?} instead of {want:?}"), &format!("{ops:?}"));
            }
        }
        let got: Vec<(&str, i64)> = x.named.iter().map(|(n, v)| (n.as_str(), i64::try_from(v).unwrap_or(-1))).collect();
        let gotp: Vec<i64> = x.positional.iter().map(|v| i64::try_from(v).unwrap_or(-1)).collect();
        if got != named || gotp != pos || !x.output_columns.is_empty() {
            case.fail("insert", &format!("holds {gotp:?} {got:?} instead of {pos:?} {named:?}"), &format!("{ops:?}"));
        }
    });
    // Schemas and columns.
    use substrait_explain::extensions::ExtensionProtoConvert;
    let types = few_types();
    let names = ["a", "", "odd name", "a"];
    let nt = types.len() as u64;
    ctx.space("schemas", seq_count(nt + 1, ctx.pick(3, 4)), |i, case| {
        let choice = seq_decode(i, nt + 1);
        case.state(&format!("{choice:?}"));
        case.trace();
        let desc = format!("{choice:?}");
        // The last letter is an expression column, which a schema cannot hold.
        let cols: Vec<ExtensionColumn> = choice
            .iter()
            .enumerate()
            .map(|(at, c)| match types.get(*c) {
                Some(t) => ExtensionColumn::Named {
                    name: names[at % 4].into(),
                    r#type: crate::model::ty_proto(t),
                },
                None => ExtensionColumn::field(at as i32),
            })
            .collect();
        let holds = choice.iter().all(|c| *c < types.len());
        let schema: Result<proto::NamedStruct, ExtensionError> = cols.as_slice().convert();
        match (&schema, holds) {
            (Err(_), false) => {}
            (Ok(s), true) => {
                let want = proto::NamedStruct {
                    names: (0..choice.len()).map(|at| names[at % 4].to_string()).collect(),
                    r#struct: Some(proto::r#type::Struct {
                        types: choice.iter().map(|c| crate::model::ty_proto(&types[*c])).collect(),
                        type_variation_reference: 0,
                        nullability: 2,
                    }),
                };
                if *s != want {
                    case.fail("schema", &format!("{s:?} instead of {want:?}"), &desc);
                }
                let back: Result<Vec<ExtensionColumn>, ExtensionError> = s.convert();
                if format!("{back:?}") != format!("{:?}", Ok::<_, ExtensionError>(cols.clone())) {
                    case.fail("schema", &format!("{back:?} instead of {cols:?}"), &desc);
                }
                // One name too many or too few.
                let mut more = s.clone();
                more.names.push("x".into());
                let mut fewer = s.clone();
                let had = fewer.names.pop().is_some();
                let bad = |s: &proto::NamedStruct| {
                    let r: Result<Vec<ExtensionColumn>, ExtensionError> = s.convert();
                    r.is_ok()
                };
                if bad(&more) || had && bad(&fewer) {
                    case.fail("schema", "a schema with other names than types converts", &desc);
                }
            }
            (s, _) => case.fail("schema", &format!("{:?}", s.is_ok()), &desc),
        }
    });
}

fn told_registry_cached() -> std::sync::Arc<ExtensionRegistry> {
    static R: std::sync::OnceLock<std::sync::Arc<ExtensionRegistry>> = std::sync::OnceLock::new();
    R.get_or_init(|| std::sync::Arc::new(told_registry())).clone()
}

/// The extensions that come with the library: every message is written with
/// its arguments, and comes back.
fn bundled(ctx: &Ctx) {
    use substrait_explain::extensions::examples::{self, BlobStoreRead, PartitionHint, PartitionStrategy, PlanHint};
    let reg = examples::registry();
    let counts = [0, 1, -1, 8, i64::MAX, i64::MIN];
    let words = ["", "use_index", "it's", "a\\b", "\n", "\"", "\u{e9}", "&HASH", "1", "limit=1"];
    let names = ["UNSPECIFIED", "HASH", "RANGE", "BROADCAST"];
    let check = |case: &mut Case, line: &str, any: Result<Any, ExtensionError>, k: usize| {
        let Ok(any) = any else { return case.fail("encoding", "the message has no payload", line) };
        let any = pbjson_types::Any { type_url: any.type_url, value: any.value.into() };
        let mut d = doc1(match k {
            2 => rel(Op::Filter(lit(V::Bool(true))), vec![rel(Op::ReadExt(vec![("c".into(), simple("i64"))], Pay { id: 0, args: Args::default() }), vec![])]),
            _ => rel(Op::Filter(lit(V::Bool(true))), vec![read(1)]),
        });
        d.env = Env::default();
        let mut p = d.proto();
        let Some(proto::plan_rel::RelType::Rel(r)) = p.relations[0].rel_type.as_mut() else { return };
        let Some(proto::rel::RelType::Filter(f)) = r.rel_type.as_mut() else { return };
        let text = if k == 2 {
            let Some(proto::rel::RelType::Read(r)) = f.input.as_mut().and_then(|i| i.rel_type.as_mut()) else { return };
            let Some(proto::read_rel::ReadType::ExtensionTable(t)) = r.read_type.as_mut() else { return };
            t.detail = Some(any);
            format!("=== Plan\nFilter[true => $0]\n  Read:Extension[c:i64]\n    + Ext:{line}\n")
        } else {
            let mut a = proto::extensions::AdvancedExtension::default();
            if k == 0 { a.enhancement = Some(any) } else { a.optimization = vec![any] }
            f.advanced_extension = Some(a);
            format!("=== Plan\nFilter[true => $0]\n  + {}:{line}\n  Read[t => c0:i64]\n", ["Enh", "Opt"][k])
        };
        case.state(&text);
        crate::common::formats_to(case, &p, &text, &Opts::default(), &reg);
        crate::common::parses_to(case, &text, &p, &reg);
    };
    let n = seq_count(4, ctx.pick(4, 6));
    ctx.space("bundled-partition-hints", n * 6, |i, case| {
        let mut r = Radix(i);
        let count = *r.pick(&counts);
        let word = seq_decode(r.0, 4);
        let m = PartitionHint { strategies: word.iter().map(|k| *k as i32).collect(), count };
        let mut args: Vec<String> = word.iter().map(|k| format!("&{}", names[*k])).collect();
        if count != 0 {
            args.push(format!("count={count}"));
        }
        let line = format!("PartitionHint[{}]", if args.is_empty() { "_".into() } else { args.join(", ") });
        for (k, n) in names.iter().enumerate() {
            let s = PartitionStrategy::from_str_name(n);
            if s.map(|s| (s as usize, s.as_str_name())) != Some((k, *n)) {
                case.fail("enum", &format!("{n}: {s:?}"), n);
            }
        }
        check(case, &line, m.to_any(), 0);
    });
    ctx.space("bundled-plan-hints", words.len() as u64, |i, case| {
        let w = words[i as usize];
        check(case, &format!("PlanHint[hint={}]", str_text(w)), PlanHint { hint: w.into() }.to_any(), 1);
    });
    ctx.space("bundled-blob-reads", words.len() as u64 * 12, |i, case| {
        let mut r = Radix(i);
        let (limit, include_archived, w) = (*r.pick(&counts), r.take(2) == 1, *r.pick(&words));
        let mut line = format!("BlobStoreRead[{}", str_text(w));
        if limit != 0 {
            line += &format!(", limit={limit}");
        }
        if include_archived {
            line += ", include_archived=true";
        }
        check(case, &format!("{line}]"), BlobStoreRead { path: w.into(), limit, include_archived }.to_any(), 2);
    });
    // Arguments the bundled extensions do not have are refused.
    let wrong = [
        "Enh:PartitionHint[HASH]", "Enh:PartitionHint['HASH']", "Enh:PartitionHint[&hash]", "Enh:PartitionHint[&HASH, count='1']", "Enh:PartitionHint[&HASH, counts=1]",
        "Enh:PartitionHint[&HASH => a:i64]", "Opt:PlanHint[_]", "Opt:PlanHint['x']", "Opt:PlanHint[hint=1]", "Opt:PlanHint[hint='x', more=1]", "Opt:PartitionHint[&HASH]",
        "Enh:PlanHint[hint='x']", "Enh:BlobStoreRead['x']",
    ];
    ctx.space("bundled-refusals", wrong.len() as u64, |i, case| {
        let t = format!("=== Plan\nFilter[true => $0]\n  + {}\n  Read[t => c0:i64]\n", wrong[i as usize]);
        rejected(case, &t, "the extension has no such argument", &reg);
    });
    let wrong = ["_", "1", "'x', 'y'", "'x', limit='1'", "'x', limit=1.0", "'x', include_archived=1", "'x', limits=1", "path='x'", "&x"];
    ctx.space("bundled-table-refusals", wrong.len() as u64, |i, case| {
        let t = format!("=== Plan\nRead:Extension[c:i64]\n  + Ext:BlobStoreRead[{}]\n", wrong[i as usize]);
        rejected(case, &t, "the extension has no such argument", &reg);
    });
}

/// Enum values and columns named like other words of the format.
fn look_alikes(ctx: &Ctx) {
    let reg = registry();
    let names = super::c06::LOOK_ALIKES;
    ctx.space("look-alike-words", (names.len() * PLACES.len() * 6) as u64, |i, case| {
        let mut r = Radix(i);
        let (k, role) = (r.take(PLACES.len()), r.take(6));
        let n = names[r.0 as usize].to_string();
        let e = Arg::Enum(n.clone());
        let args = match role {
            0 => Args { pos: vec![e.clone(), Arg::Null, e], ..Args::default() },
            1 => Args { named: vec![("a".into(), e.clone()), ("b".into(), e)], ..Args::default() },
            2 => Args { pos: vec![Arg::Tuple(vec![e.clone()]), Arg::Tuple(vec![Arg::Int(1), e])], ..Args::default() },
            3 => Args { pos: vec![Arg::Str(n.clone()), e, Arg::Str(format!("&{n}"))], ..Args::default() },
            _ if k > 2 => return,
            4 => Args { cols: vec![Col::Named(n.clone(), simple("i64")), Col::Named(n, simple("boolean").nullable())], ..Args::default() },
            _ => Args { pos: vec![e], cols: vec![Col::Ex(Ex::Ref(0)), Col::Named(n, udt(1, vec![]))], ..Args::default() },
        };
        round_trip(case, &place(Pay { id: 0, args }, k), &reg);
    });
}
