//! C12: output options change presentation only.
use crate::common::{diff, format, options, parses_to, try_parse};
use crate::corpus::{docs, tree};
use crate::engine::{Case, Ctx, Radix};
use crate::ext::registry;
use crate::model::*;
use crate::pools::{FNS, atoms, doc1, few_lits, few_types, place, read, wrap_exprs};
use crate::props::c11::bases;
use crate::reflect::{apply, plan_of};
use substrait::proto::expression::literal::LiteralType;
use substrait::proto::expression::{Literal, RexType};
use substrait::proto::rel::RelType;
use substrait::proto::{Expression, plan_rel};
use substrait_explain::OutputOptions;
use substrait_explain::extensions::ExtensionRegistry;

const VIS: [Vis; 3] = [Vis::Never, Vis::Required, Vis::Always];
const INDENTS: [&str; 6] = ["  ", "", " ", "\t", "    ", "| "];
const THRESHOLDS: [usize; 7] = [3, 0, 1, 2, 4, 5, usize::MAX];

fn decode(r: &mut Radix, indents: &[&str], thresholds: &[usize]) -> Opts {
    Opts {
        anchors: *r.pick(&VIS),
        literal_types: *r.pick(&VIS),
        show_emit: r.take(2) == 1,
        indent: r.pick(indents).to_string(),
        threshold: *r.pick(thresholds),
    }
}

/// The options that name details the formatter always shows, and one that only
/// concerns binary literals.
fn with_flags(o: &Opts, flags: usize) -> OutputOptions {
    let on = |b: usize| flags >> b & 1 == 1;
    OutputOptions {
        show_extension_urns: on(0),
        show_simple_extensions: on(1),
        read_types: on(2),
        nullability: on(3),
        show_literal_binaries: on(4),
        ..options(o)
    }
}

/// Whether the text still says everything that is needed to read it back.
fn complete(o: &Opts) -> bool {
    o.anchors != Vis::Never && o.literal_types != Vis::Never && !o.show_emit && o.indent == "  "
}

fn check(case: &mut Case, d: &Doc, o: &Opts, real: &OutputOptions, reported: bool, reg: &ExtensionRegistry) {
    let want = d.text(o);
    case.state(&format!("{real:?}\n{want}"));
    let plan = d.proto();
    let Some((text, errs)) = format(case, &plan, real, reg, &want) else { return };
    case.trace();
    if text != want {
        case.fail("other-text", &format!("with {real:?}\n{}", diff(&text, &want)), &want);
        return;
    }
    // Remaps that have no text are reported whatever the options.
    if errs.is_empty() == reported {
        case.fail("errors", &format!("with {real:?}: errors {errs:?}"), &want);
        return;
    }
    if complete(o) && !reported {
        // Plans that share their text with another one are read back as that one,
        // the same with every setting.
        match try_parse(&d.text(&Opts::default()), reg) {
            Ok(Ok(p)) => parses_to(case, &text, &p, reg),
            _ => parses_to(case, &text, &plan, reg),
        };
        case.outcome("read back");
    } else {
        case.outcome("shown");
    }
}

/// The text with one more or less level per leading indent.
fn reindent(text: &str, from: &str, to: &str) -> String {
    text.split('\n')
        .map(|l| {
            let mut rest = l;
            let mut s = String::new();
            while let Some(r) = rest.strip_prefix(from) {
                s.push_str(to);
                rest = r;
            }
            s + rest
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn binary(bytes: Vec<u8>, null: bool) -> Expression {
    Expression {
        rex_type: Some(RexType::Literal(Literal {
            nullable: null,
            type_variation_reference: 0,
            literal_type: Some(LiteralType::Binary(bytes)),
        })),
    }
}

fn show_binary(case: &mut Case, bytes: &[u8], null: bool, show: bool, vis: Vis, reg: &ExtensionRegistry) {
    let mut plan = doc1(rel(Op::Filter(int(4242)), vec![read(1)])).proto();
    if let Some(plan_rel::RelType::Rel(r)) = &mut plan.relations[0].rel_type
        && let Some(RelType::Filter(f)) = &mut r.rel_type
    {
        f.condition = Some(Box::new(binary(bytes.to_vec(), null)));
    }
    let o = Opts { literal_types: vis, ..Opts::default() };
    let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
    let v = if show { format!("0x{hex}") } else { "{binary}".into() };
    let suffix = match (vis, null) {
        // The spelling already says that it is binary.
        (Vis::Never, _) | (Vis::Required, false) => "",
        (_, true) => ":binary?",
        (_, false) => ":binary",
    };
    let want = doc1(rel(Op::Filter(int(4242)), vec![read(1)])).text(&Opts::default()).replace("4242", &format!("{v}{suffix}"));
    case.state(&want);
    let Some((text, errs)) = format(case, &plan, &with_flags(&o, if show { 16 } else { 0 }), reg, &want) else { return };
    case.trace();
    if text != want || !errs.is_empty() {
        case.fail("other-text", &format!("formatted as:\n{text}\nerrors {errs:?}"), &want);
    }
}

pub fn run(ctx: &Ctx) {
    let reg = registry();
    let docs = docs();
    // Every document x every combination of options.
    for (name, d) in &docs {
        let reported = *name == "virtual-emit";
        let n = (9 * 2 * INDENTS.len() * THRESHOLDS.len()) as u64;
        ctx.space(&format!("all-{name}"), n, |i, case| {
            let o = decode(&mut Radix(i), &INDENTS, &THRESHOLDS);
            check(case, d, &o, &options(&o), reported, &reg);
        });
        ctx.space(&format!("flags-{name}"), 9 * 2 * 32, |i, case| {
            let mut r = Radix(i);
            let o = decode(&mut r, &["  "], &[3]);
            check(case, d, &o, &with_flags(&o, r.take(32)), reported, &reg);
        });
    }
    // Every expression of depth 2, function and type, with every visibility.
    let some: Vec<Ex> = atoms().into_iter().take(ctx.pick(6, 40)).collect();
    let mut exprs = wrap_exprs(&some, &some[..2]);
    exprs.extend(few_lits().into_iter().map(Ex::Lit));
    exprs.extend(FNS.iter().map(|f| Ex::Call(*f, vec![Ex::Ref(0)], simple("i64"))));
    exprs.extend(few_types().into_iter().map(|t| Ex::Cast(Box::new(Ex::Ref(0)), 0, t)));
    let positions = ctx.pick(6, 14);
    let n = (exprs.len() * positions * 9) as u64;
    ctx.space("expressions", n, |i, case| {
        let mut r = Radix(i);
        let e = r.pick(&exprs);
        let Some(d) = place(e, r.take(positions)) else { return };
        let o = Opts {
            anchors: *r.pick(&VIS),
            literal_types: *r.pick(&VIS),
            ..Opts::default()
        };
        check(case, &d, &o, &options(&o), false, &reg);
    });
    // Virtual tables of every size against every threshold.
    ctx.space("thresholds", 8 * 9 * 2 * 6, |i, case| {
        let mut r = Radix(i);
        let (rows, t, f) = (r.take(8), r.take(9), r.take(2));
        let op = Op::Virtual {
            rows: (0..rows).map(|k| vec![int(k as i64)]).collect(),
            filter: (f == 1).then(|| lit(V::Bool(true))),
            cols: vec![("c".into(), simple("i64"))],
        };
        let v = rel(op, vec![]);
        let d = match r.take(3) {
            0 => doc1(v),
            1 => doc1(rel(Op::Filter(lit(V::Bool(true))), vec![v])),
            _ => doc1(rel(Op::Cross, vec![v, read(1)])),
        };
        let o = Opts {
            threshold: if t == 8 { usize::MAX } else { t },
            indent: INDENTS[r.take(2) * 3].into(),
            ..Opts::default()
        };
        check(case, &d, &o, &options(&o), false, &reg);
    });
    // Everything that repeats, at sizes up to a bound, with every visibility.
    let families: Vec<crate::sweeps::Family> = [
        crate::sweeps::RELATIONS,
        crate::sweeps::EXPRESSIONS,
        crate::sweeps::TYPES,
        crate::sweeps::NAMES,
        crate::sweeps::ARGUMENTS,
        crate::sweeps::ADDENDA,
        crate::sweeps::DECLARATIONS,
    ]
    .concat();
    let s = crate::sweeps::sizes(ctx.pick(20, 140), ctx.pick(129, 1025));
    ctx.space("sizes", (families.len() * s.len() * 18) as u64, |i, case| {
        let mut r = Radix(i);
        let o = decode(&mut r, &["  "], &[3]);
        let n = *r.pick(&s);
        let Some(d) = r.pick(&families).1(n) else { return };
        check(case, &d, &o, &options(&o), false, &reg);
    });
    // Deep trees: the indent is repeated, and nothing else changes.
    ctx.space("deep", (INDENTS.len() * 24) as u64, |i, case| {
        let mut r = Radix(i);
        let indent = r.pick(&INDENTS).to_string();
        let mut t = tree();
        for _ in 0..r.take(24) {
            t = rel(Op::Filter(lit(V::Bool(true))), vec![t]);
        }
        let o = Opts { indent, ..Opts::default() };
        let mut d = doc1(t);
        d.env = docs.iter().find(|(n, _)| *n == "tree").expect("tree").1.env.clone();
        check(case, &d, &o, &options(&o), false, &reg);
    });
    // Binary literals: shown only when asked for.
    let lens = ctx.pick(1u32, 2);
    let total: u64 = (0..=lens).map(|l| 256u64.pow(l)).sum();
    ctx.space("binary", total * 2 * 2 * 3, |i, case| {
        let mut r = Radix(i);
        let (null, show, vis) = (r.take(2) == 1, r.take(2) == 1, *r.pick(&VIS));
        let mut k = r.0;
        let mut len = 0;
        while k >= 256u64.pow(len) {
            k -= 256u64.pow(len);
            len += 1;
        }
        let bytes: Vec<u8> = (0..len).map(|j| (k >> (8 * j)) as u8).collect();
        show_binary(case, &bytes, null, show, vis, &reg);
    });
    // Every length, up to some that are long.
    let lens: Vec<usize> = (0..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65_535, 65_536, 70_000]).collect();
    ctx.space("binary-lengths", lens.len() as u64 * 2 * 2 * 3, |i, case| {
        let mut r = Radix(i);
        let (null, show, vis) = (r.take(2) == 1, r.take(2) == 1, *r.pick(&VIS));
        let n = *r.pick(&lens);
        let bytes: Vec<u8> = (0..n).map(|j| (j * 7 + j / 256) as u8).collect();
        show_binary(case, &bytes, null, show, vis, &reg);
    });
    // Plans with a fault: options that add detail change neither the errors nor
    // the lines, and the indent only the leading whitespace.
    for b in bases() {
        ctx.space(&format!("faults-{}", b.name), b.changes.len() as u64, |i, case| {
            let c = &b.changes[i as usize];
            let Some(m) = apply(&b.dynamic, c) else { return };
            let plan = plan_of(&m);
            let desc = format!("{} #{i}", b.name);
            case.state(&desc);
            let Some((text, errs)) = format(case, &plan, &options(&Opts::default()), &reg, &desc) else { return };
            let errs = format!("{errs:?}");
            for indent in ["\t", "    "] {
                let o = Opts { indent: indent.into(), ..Opts::default() };
                let Some((t, e)) = format(case, &plan, &options(&o), &reg, &desc) else { return };
                case.trace();
                // Declared names with line breaks are written as they are.
                let raw = c.name.starts_with("substrait.extensions.") || c.name.starts_with("substrait.Version.");
                if reindent(&text, "  ", indent) != t && !raw {
                    case.fail("indent", &format!("not the same text with another indent:\n{text}\n{t}"), &desc);
                }
                if format!("{e:?}") != errs {
                    case.fail("errors", &format!("with indent {indent:?} the errors are {e:?} instead of {errs}"), &desc);
                }
            }
            for k in 0..9usize {
                let o = Opts {
                    anchors: VIS[k % 3],
                    literal_types: VIS[k / 3],
                    ..Opts::default()
                };
                let Some((t, e)) = format(case, &plan, &with_flags(&o, if k % 2 == 0 { 31 } else { 0 }), &reg, &desc) else { return };
                case.trace();
                if t.lines().count() != text.lines().count() || t.matches("!{").count() != text.matches("!{").count() {
                    case.fail("lines", &format!("with {o:?} the text is\n{t}\ninstead of\n{text}"), &desc);
                }
                if format!("{e:?}") != errs {
                    case.fail("errors", &format!("with {o:?} the errors are {e:?} instead of {errs}"), &desc);
                }
            }
            for t in [0, 1, 2, usize::MAX] {
                let o = Opts { threshold: t, ..Opts::default() };
                let Some((t, e)) = format(case, &plan, &options(&o), &reg, &desc) else { return };
                case.trace();
                let flat = |t: &str| t.replace("\n", " ").replace("  ", "").replace("- ", "").replace(' ', "");
                if flat(&t) != flat(&text) || format!("{e:?}") != errs {
                    case.fail("layout", &format!("with {o:?} the text is\n{t}\ninstead of\n{text}\nerrors {e:?} instead of {errs}"), &desc);
                }
            }
        });
    }
}
