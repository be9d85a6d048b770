//! C13: virtual-table rows mean the same on one line or many.
use crate::common::{formats_to, options, parse, parses_to, rejected, try_format};
use crate::corpus::docs;
use crate::engine::{Case, Ctx, Radix, guarded};
use crate::ext::registry;
use crate::model::*;
use crate::pools::{atoms, doc1, env, few_types, read};
use substrait_explain::extensions::ExtensionRegistry;

/// What may stand between two tokens of a virtual read.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Gap {
    /// Inside a row, or elsewhere where no line break is allowed.
    Closed,
    /// After the bracket, after a row or the filter, before the arrow.
    Open,
}

struct Token {
    text: String,
    /// What follows on the same line.
    space: &'static str,
    gap: Gap,
}

fn tokens(rows: &[Vec<String>], filter: Option<&str>, cols: &[String]) -> Vec<Token> {
    let mut t: Vec<Token> = vec![];
    let mut add = |text: &str, space: &'static str, gap: Gap| {
        t.push(Token {
            text: text.into(),
            space,
            gap,
        })
    };
    add("Read:Virtual", "", Gap::Closed);
    add("[", "", Gap::Open);
    let n = rows.len() + usize::from(filter.is_some()) + usize::from(rows.is_empty());
    let mut k = 0;
    let mut close = |add: &mut dyn FnMut(&str, &'static str, Gap), last: &str| {
        k += 1;
        if k < n {
            add(last, "", Gap::Closed);
            add(",", " ", Gap::Open);
        } else {
            add(last, " ", Gap::Open);
        }
    };
    if rows.is_empty() {
        close(&mut add, "_");
    }
    for r in rows {
        add("(", "", Gap::Closed);
        for (i, e) in r.iter().enumerate() {
            add(e, "", Gap::Closed);
            if i + 1 < r.len() {
                add(",", " ", Gap::Closed);
            }
        }
        close(&mut add, ")");
    }
    if let Some(f) = filter {
        add("filter=", "", Gap::Closed);
        close(&mut add, f);
    }
    add("=>", " ", Gap::Closed);
    for (i, c) in cols.iter().enumerate() {
        add(c, "", Gap::Closed);
        if i + 1 < cols.len() {
            add(",", " ", Gap::Closed);
        }
    }
    add("]", "", Gap::Closed);
    t
}

/// Allowed spellings of a line break, for a relation at this depth.
fn breaks(depth: usize) -> [String; 4] {
    let i = "  ".repeat(depth + 1);
    [format!("\n{i}- "), format!("\r\n{i}- "), format!(" \n{i}- "), format!("\n{i}-   ")]
}

/// Spellings that are not a continuation of this relation.
fn wrong_breaks(depth: usize) -> Vec<String> {
    let at = |n: usize| "  ".repeat(n);
    let mut v = vec![
        format!("\n{}", at(depth + 1)),
        format!("\n{}-", at(depth + 1)),
        format!("\n{}+ ", at(depth + 1)),
        format!("\n{}* ", at(depth + 1)),
        format!("\n{}-\t", at(depth + 1)),
        format!("\n{} - ", at(depth + 1)),
        format!("\n{}- ", at(depth)),
        format!("\n{}- ", at(depth + 2)),
        format!("\n{}- - ", at(depth + 1)),
        format!("\n\t{}- ", at(depth)),
        "\n".into(),
    ];
    if depth > 0 {
        v.push(format!("\n{}- ", at(depth - 1)));
        v.push("\n- ".into());
    }
    v
}

fn lay(t: &[Token], at: impl Fn(usize) -> Option<String>) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        s.push_str(&x.text);
        match at(i) {
            Some(b) => s.push_str(&b),
            None => s.push_str(x.space),
        }
    }
    s
}

/// A virtual read, and what it is made of.
struct Table {
    op: Op,
    tokens: Vec<Token>,
}

fn table(rows: Vec<Vec<Ex>>, filter: Option<Ex>, names: &[(String, Ty)]) -> Table {
    let o = Opts::default();
    let e = env();
    let w = W { env: &e, o: &o };
    let t: Vec<Vec<String>> = rows.iter().map(|r| r.iter().map(|e| w.ex(e)).collect()).collect();
    let f = filter.as_ref().map(|f| w.ex(f));
    let c: Vec<String> = names.iter().map(|(n, t)| format!("{}:{}", name_text(n), w.ty(t))).collect();
    Table {
        tokens: tokens(&t, f.as_deref(), &c),
        op: Op::Virtual {
            rows,
            filter,
            cols: names.to_vec(),
        },
    }
}

fn tables() -> Vec<Table> {
    let c = |n: usize| -> Vec<(String, Ty)> {
        [("a", simple("i64")), ("b c", simple("string").nullable()), ("d", list(simple("i64")))]
            .into_iter()
            .take(n)
            .map(|(s, t)| (s.to_string(), t))
            .collect()
    };
    let s = |t: &str| lit(V::Str(t.into()));
    let call = |a: Vec<Ex>| Ex::Call(1, a, simple("i64"));
    vec![
        table(vec![], None, &c(1)),
        table(vec![], Some(lit(V::Bool(true))), &c(2)),
        table(vec![vec![]], None, &c(0)),
        table(vec![vec![], vec![]], Some(Ex::Ref(0)), &c(0)),
        table(vec![vec![int(1)]], None, &c(1)),
        table(vec![vec![int(1), s("x")], vec![int(2), s("- => ], [")]], None, &c(2)),
        table(vec![vec![call(vec![int(1), int(2)])], vec![int(-3)]], Some(call(vec![Ex::Ref(0)])), &c(1)),
        table(vec![vec![int(1)], vec![int(2)], vec![int(3)]], None, &c(1)),
        table(vec![vec![int(1)], vec![int(2)], vec![int(3)]], Some(Ex::Ref(0)), &c(1)),
        table(
            vec![vec![Ex::Cast(Box::new(int(1)), 0, simple("i8")), s("\n  - (2)"), Ex::If(vec![(Ex::Ref(0), int(1))], Box::new(int(2)))]],
            None,
            &c(3),
        ),
    ]
}

const CONTEXTS: usize = 7;

/// The table among other relations; the text has each table on one line.
fn place(op: &Op, k: usize) -> Doc {
    let v = || rel(op.clone(), vec![]);
    let f = |r: Rel| rel(Op::Filter(lit(V::Bool(true))), vec![r]);
    match k {
        0 => doc1(v()),
        1 => doc1(f(v())),
        2 => doc1(rel(Op::Cross, vec![v(), read(1)])),
        3 => doc1(rel(Op::Cross, vec![read(1), f(f(v()))])),
        4 => {
            let mut d = doc1(v());
            d.tops.push(Top::Rel(read(1)));
            d
        }
        5 => {
            let mut r = v();
            r.opts = vec![Pay {
                id: 0,
                args: Args {
                    pos: vec![Arg::Int(5)],
                    ..Args::default()
                },
            }];
            doc1(f(r))
        }
        _ => doc1(rel(Op::Cross, vec![f(v()), v()])),
    }
}

fn one_line() -> Opts {
    Opts {
        threshold: usize::MAX,
        ..Opts::default()
    }
}

/// The text with the virtual reads replaced, in order, by what `f` gives for
/// their number and depth.
fn with_tables(text: &str, f: impl Fn(usize, usize) -> String) -> String {
    let mut n = 0;
    let mut out = String::new();
    for l in text.lines() {
        let body = l.trim_start();
        if body.starts_with("Read:Virtual[") {
            let depth = (l.len() - body.len()) / 2;
            out.push_str(&"  ".repeat(depth));
            out.push_str(&f(n, depth));
            n += 1;
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}

fn open(t: &[Token]) -> Vec<usize> {
    (0..t.len()).filter(|i| t[*i].gap == Gap::Open).collect()
}

/// Neither accepted with another meaning nor a panic.
fn rejected_or_same(case: &mut Case, text: &str, plan: &substrait::proto::Plan, reg: &ExtensionRegistry) {
    case.state(text);
    let Some(p) = parse(case, text, reg) else { return };
    case.trace();
    if let Ok(p) = p
        && p != *plan
    {
        case.fail("other-plan", "the blank line changes the plan", text);
    }
}

pub fn run(ctx: &Ctx) {
    let reg = registry();
    let tabs = tables();
    ctx.space("one-line", (tabs.len() * CONTEXTS) as u64, |i, case| {
        let mut r = Radix(i);
        let t = r.pick(&tabs);
        let d = place(&t.op, r.take(CONTEXTS));
        let text = d.text(&one_line());
        let same = with_tables(&text, |_, _| lay(&t.tokens, |_| None));
        if same != text {
            case.fail("model", "the tokens are not the text", &text);
        }
        case.state(&text);
        parses_to(case, &text, &d.proto(), &reg);
        formats_to(case, &d.proto(), &text, &one_line(), &reg);
    });
    // Every choice of allowed line breaks, each in every spelling.
    for (ti, t) in tabs.iter().enumerate() {
        let gaps = open(&t.tokens);
        let forms = if ctx.quick() && gaps.len() > 4 { 3 } else { 5u64 };
        let n = forms.pow(gaps.len() as u32);
        ctx.space(&format!("layouts-{ti}"), n * CONTEXTS as u64, |i, case| {
            let mut r = Radix(i);
            let k = r.take(CONTEXTS);
            let pick: Vec<usize> = gaps.iter().map(|_| r.take(forms as usize)).collect();
            let d = place(&t.op, k);
            let text = with_tables(&d.text(&one_line()), |n, depth| {
                let b = breaks(depth);
                lay(&t.tokens, |g| {
                    let at = gaps.iter().position(|x| *x == g)?;
                    // The second table has its breaks the other way round.
                    let f = if n == 0 { pick[at] } else { pick[pick.len() - 1 - at] };
                    (f > 0).then(|| b[f - 1].clone())
                })
            });
            case.state(&text);
            parses_to(case, &text, &d.proto(), &reg);
            case.outcome("same plan");
        });
        // A break where none is allowed, or one in the wrong form, with every
        // choice of allowed breaks elsewhere.
        let all = t.tokens.len() - 1;
        let masks = 1u64 << gaps.len();
        for k in 0..CONTEXTS {
            if ctx.quick() && !matches!(k, 0 | 3 | 6) {
                continue;
            }
            ctx.space(&format!("wrong-{ti}-{k}"), masks * all as u64 * 17, |i, case| {
                let mut r = Radix(i);
                let (g, form, mask) = (r.take(all), r.take(17), r.0);
                let d = place(&t.op, k);
                let mut any = false;
                let text = with_tables(&d.text(&one_line()), |n, depth| {
                    let good = breaks(depth);
                    let bad = wrong_breaks(depth);
                    lay(&t.tokens, |x| {
                        if x == g && n == 0 {
                            return if form < 4 { Some(good[form].clone()) } else { bad.get(form - 4).cloned() };
                        }
                        let at = gaps.iter().position(|y| *y == x)?;
                        (mask >> at & 1 == 1).then(|| good[0].clone())
                    })
                });
                // Right forms in closed gaps and wrong forms everywhere.
                any |= form < 4 && t.tokens[g].gap == Gap::Closed;
                any |= form >= 4 && form - 4 < wrong_breaks(text.lines().find_map(|l| l.find("Read:Virtual")).unwrap_or(0) / 2).len();
                if any {
                    rejected(case, &text, "a line break is misplaced", &reg);
                }
            });
        }
        // Anything after the closing bracket.
        let after = [" x", "]", ",", " (1)", " => $0", " // comment", "\n@- (1)", "\n@- ", "\n@- ,", "\n@- (1),\n@- => a:i64]", "\n@- => a:i64]", "\n@- ]", " \n@- (2)"];
        ctx.space(&format!("after-{ti}"), masks * (CONTEXTS * after.len()) as u64, |i, case| {
            let mut r = Radix(i);
            let (k, a) = (r.take(CONTEXTS), r.pick(&after));
            let mask = r.0;
            let d = place(&t.op, k);
            let text = with_tables(&d.text(&one_line()), |_, depth| {
                let good = breaks(depth);
                let s = lay(&t.tokens, |x| {
                    let at = gaps.iter().position(|y| *y == x)?;
                    (mask >> at & 1 == 1).then(|| good[0].clone())
                });
                s + &a.replace('@', &"  ".repeat(depth + 1))
            });
            rejected(case, &text, "there is text after the closing bracket", &reg);
        });
        // A blank line inside changes no meaning.
        ctx.space(&format!("blank-{ti}"), masks * (CONTEXTS * gaps.len()) as u64, |i, case| {
            let mut r = Radix(i);
            let (k, b) = (r.take(CONTEXTS), r.take(gaps.len()));
            let mask = r.0;
            let d = place(&t.op, k);
            let text = with_tables(&d.text(&one_line()), |_, depth| {
                let good = breaks(depth);
                lay(&t.tokens, |x| {
                    let at = gaps.iter().position(|y| *y == x)?;
                    if at == b {
                        return Some(format!("\n{}", good[0]));
                    }
                    (mask >> at & 1 == 1).then(|| good[0].clone())
                })
            });
            rejected_or_same(case, &text, &d.proto(), &reg);
        });
    }
    // Sizes, widths, filters and thresholds.
    let (rows, width) = ctx.pick((7, 3), (14, 6));
    let n = rows * width * 2 * (rows + 2) * CONTEXTS;
    ctx.space("shapes", n as u64, |i, case| {
        let mut r = Radix(i);
        let (n, w, f, th, k) = (r.take(rows), r.take(width), r.take(2), r.take(rows + 2), r.take(CONTEXTS));
        let cols: Vec<(String, Ty)> = (0..w).map(|c| (format!("c{c}"), simple("i64"))).collect();
        let data = (0..n).map(|a| (0..w).map(|b| int((a * 10 + b) as i64)).collect()).collect();
        let op = Op::Virtual {
            rows: data,
            filter: (f == 1).then(|| lit(V::Bool(true))),
            cols,
        };
        let d = place(&op, k);
        let o = Opts {
            threshold: if th > rows { usize::MAX } else { th },
            ..Opts::default()
        };
        let text = d.text(&o);
        case.state(&format!("{}\n{text}", o.threshold));
        formats_to(case, &d.proto(), &text, &o, &reg);
        parses_to(case, &text, &d.proto(), &reg);
    });
    // Row counts against thresholds near and far, and wide rows.
    let counts = crate::sweeps::sizes(ctx.pick(70, 300), ctx.pick(1025, 8193));
    ctx.space("row-counts", counts.len() as u64 * 6 * 2 * 2, |i, case| {
        let mut r = Radix(i);
        let n = counts[counts.len() - 1 - r.take(counts.len())];
        let threshold = [0, 3, n.saturating_sub(1), n, n + 1, usize::MAX][r.take(6)];
        let (f, wide) = (r.take(2), r.take(2));
        let (rows, w) = if wide == 1 { (4, n) } else { (n, 1) };
        if wide == 1 && n > 300 {
            return;
        }
        let op = Op::Virtual {
            rows: (0..rows).map(|a| (0..w).map(|b| int((a * 1000 + b) as i64)).collect()).collect(),
            filter: (f == 1).then(|| Ex::Ref(n as i32)),
            cols: (0..w).map(|c| (format!("c{c}"), simple("i64"))).collect(),
        };
        let d = doc1(rel(Op::Cross, vec![read(1), rel(op, vec![])]));
        let o = Opts { threshold, ..Opts::default() };
        let text = d.text(&o);
        case.state(&format!("{threshold}\n{text}"));
        formats_to(case, &d.proto(), &text, &o, &reg);
        parses_to(case, &text, &d.proto(), &reg);
    });
    // Every pair of simple expressions in a row, in both layouts.
    let atoms: Vec<Ex> = atoms();
    let types = few_types();
    let m = ctx.pick(atoms.len().min(30), atoms.len());
    ctx.space("values", (m * m * 4) as u64, |i, case| {
        let mut r = Radix(i);
        let (a, b, th, f) = (r.take(m), r.take(m), r.take(2), r.take(2));
        let op = Op::Virtual {
            rows: vec![vec![atoms[a].clone()], vec![atoms[b].clone()]],
            filter: (f == 1).then(|| atoms[b].clone()),
            cols: vec![("c".into(), types[(a + b) % types.len()].clone())],
        };
        let d = doc1(rel(op, vec![]));
        let o = Opts {
            threshold: 2 + th,
            ..Opts::default()
        };
        let text = d.text(&o);
        case.state(&text);
        formats_to(case, &d.proto(), &text, &o, &reg);
        parses_to(case, &text, &d.proto(), &reg);
    });
    // A continuation line anywhere else.
    let strays = ["- (1)", "- => $0]", "-", "- ", "- x", "- Read[t => c:i64]", "- _", "- (1),"];
    for (name, d) in docs() {
        let text = d.text(&one_line());
        let lines: Vec<&str> = text.lines().collect();
        let n = (lines.len() + 1) * 5 * strays.len();
        ctx.space(&format!("stray-{name}"), n as u64, |i, case| {
            let mut r = Radix(i);
            let (at, depth, s) = (r.take(lines.len() + 1), r.take(5), r.pick(&strays));
            let line = format!("{}{s}", "  ".repeat(depth));
            let mut l = lines.clone();
            l.insert(at, &line);
            rejected(case, &(l.join("\n") + "\n"), "a continuation line stands on its own", &reg);
        });
    }
    // The default layout is the one in use without options.
    ctx.space("defaults", 300, |i, case| {
        let op = Op::Virtual {
            rows: (0..i).map(|k| vec![int(k as i64)]).collect(),
            filter: None,
            cols: vec![("c".into(), simple("i64"))],
        };
        let d = doc1(rel(op, vec![]));
        let text = d.text(&Opts::default());
        case.state(&text);
        let got = guarded(|| substrait_explain::format(&d.proto()).0);
        let with = try_format(&d.proto(), &options(&Opts::default()), &reg);
        case.step(2);
        case.trace();
        if got.as_deref() != Ok(text.as_str()) || with.map(|w| w.0).as_deref() != Ok(text.as_str()) {
            case.fail("other-text", &format!("formatted as {got:?}"), &text);
        }
    });
}
