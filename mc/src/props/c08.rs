//! C08: indentation determines the relation tree.
use crate::common::{parses_to, rejected, round_trip};
use crate::engine::{Case, Ctx, Radix, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;

use substrait_explain::extensions::ExtensionRegistry;

pub const KINDS: [&str; 12] = [
    "Root", "Read", "Filter", "Join", "Set", "Cross", "Project", "ExtensionLeaf", "ExtensionSingle", "ExtensionMulti",
    "Virtual", "Sort",
];

pub struct Node {
    pub kind: usize,
    pub label: usize,
    pub kids: Vec<Node>,
}

fn pay(i: usize) -> Pay {
    Pay {
        id: 0,
        args: Args { pos: vec![Arg::Int(i as i64)], named: vec![], cols: vec![Col::Named("c".into(), simple("i64"))] },
    }
}

/// One line; every relation here has one output column.
pub fn line(kind: usize, i: usize) -> String {
    match KINDS[kind] {
        "Root" => format!("Root[r{i}]"),
        "Read" => format!("Read[t{i} => c:i64]"),
        "Filter" => format!("Filter[${i} => $0]"),
        "Join" => format!("Join[&Inner, ${i} => $0]"),
        "Set" => "Set[&UnionAll => $0]".into(),
        "Cross" => "Cross[$0]".into(),
        "Project" => format!("Project[{i}]"),
        "ExtensionLeaf" => format!("ExtensionLeaf:RecA[{i} => c:i64]"),
        "ExtensionSingle" => format!("ExtensionSingle:RecA[{i} => c:i64]"),
        "ExtensionMulti" => format!("ExtensionMulti:RecA[{i} => c:i64]"),
        "Virtual" => format!("Read:Virtual[({i}) => c:i64]"),
        _ => format!("Sort[(${i}, &AscNullsLast) => $0]"),
    }
}

fn arity_ok(kind: usize, n: usize) -> bool {
    match KINDS[kind] {
        "Root" | "Filter" | "Project" | "ExtensionSingle" | "Sort" => n == 1,
        "Read" | "ExtensionLeaf" | "Virtual" => n == 0,
        "Join" | "Cross" => n == 2,
        "Set" => n >= 2,
        _ => true,
    }
}

/// The forest the lines spell, or why they spell none.
pub fn forest(lines: &[(usize, usize)]) -> Result<Vec<Node>, &'static str> {
    // Children of each line, by the nearest earlier line one level up.
    let mut parent: Vec<Option<usize>> = vec![];
    for (i, (d, k)) in lines.iter().enumerate() {
        if *d == 0 {
            parent.push(None);
            continue;
        }
        if KINDS[*k] == "Root" {
            return Err("a Root below the top level");
        }
        // Walking back, the first line less deep must be exactly one level up.
        match (0..i).rev().find(|j| lines[*j].0 < *d) {
            Some(j) if lines[j].0 == d - 1 => parent.push(Some(j)),
            Some(_) => return Err("a level is skipped"),
            None => return Err("no parent"),
        }
    }
    fn build(i: usize, lines: &[(usize, usize)], parent: &[Option<usize>]) -> Result<Node, &'static str> {
        let mut kids = vec![];
        for (j, p) in parent.iter().enumerate() {
            if *p == Some(i) {
                kids.push(build(j, lines, parent)?);
            }
        }
        if !arity_ok(lines[i].1, kids.len()) {
            return Err("wrong number of inputs");
        }
        Ok(Node { kind: lines[i].1, label: i, kids })
    }
    (0..lines.len()).filter(|i| parent[*i].is_none()).map(|i| build(i, lines, &parent)).collect()
}

fn to_rel(n: &Node) -> Rel {
    let kids: Vec<Rel> = n.kids.iter().map(to_rel).collect();
    let i = n.label;
    let e = Ex::Ref(i as i32);
    let c = vec![("c".to_string(), simple("i64"))];
    let (op, emit) = match KINDS[n.kind] {
        "Read" => (Op::Read(vec![format!("t{i}")], c), None),
        "Filter" => (Op::Filter(e), None),
        "Join" => (Op::Join(0, e, None), Some(vec![0])),
        "Set" => (Op::Set(7), None),
        "Cross" => (Op::Cross, Some(vec![0])),
        "Project" => (Op::Project(vec![int(i as i64)]), Some(vec![1])),
        "ExtensionLeaf" => (Op::ExtLeaf(pay(i)), None),
        "ExtensionSingle" => (Op::ExtSingle(pay(i)), None),
        "ExtensionMulti" => (Op::ExtMulti(pay(i)), None),
        "Virtual" => (Op::Virtual { rows: vec![vec![int(i as i64)]], filter: None, cols: c }, None),
        _ => (Op::Sort(vec![(e, 1)]), None),
    };
    let mut r = rel(op, kids);
    r.emit = emit;
    r
}

pub fn doc_of(forest: &[Node]) -> Doc {
    Doc {
        version: None,
        env: Env::default(),
        tops: forest
            .iter()
            .map(|n| {
                if KINDS[n.kind] == "Root" {
                    Top::Root(vec![format!("r{}", n.label)], to_rel(&n.kids[0]))
                } else {
                    Top::Rel(to_rel(n))
                }
            })
            .collect(),
    }
}

fn text(lines: &[(usize, usize)]) -> String {
    let mut t = String::from("=== Plan\n");
    for (i, (d, k)) in lines.iter().enumerate() {
        t.push_str(&"  ".repeat(*d));
        t.push_str(&line(*k, i));
        t.push('\n');
    }
    t
}

fn check(case: &mut Case, lines: &[(usize, usize)], reg: &ExtensionRegistry) {
    let t = text(lines);
    match forest(lines) {
        Ok(f) => {
            let d = doc_of(&f);
            case.state(&t);
            if parses_to(case, &t, &d.proto(), reg) {
                case.outcome("forest");
            }
            round_trip(case, &d, reg);
        }
        Err(why) => {
            case.outcome(why);
            rejected(case, &t, why, reg);
        }
    }
}

/// The sequences of (depth, kind) of length n whose first depth is 0, where a
/// line is at most one level deeper than the one before, by index.
fn sequences(ctx: &Ctx, name: &str, kinds: &[usize], depths: u64, max: u32, reg: &ExtensionRegistry) {
    let n = kinds.len() as u64 * depths;
    ctx.space(name, seq_count(n, max), |i, case| {
        let lines: Vec<(usize, usize)> =
            seq_decode(i, n).into_iter().map(|k| (k % depths as usize, kinds[k / depths as usize])).collect();
        if lines.is_empty() {
            return;
        }
        check(case, &lines, reg);
    });
}

pub fn run(ctx: &Ctx) {
    crate::words::lines(ctx);
    let reg = registry();
    sequences(ctx, "core-kinds-any-depths", &[0, 1, 2, 3, 4], 4, ctx.pick(4, 5), &reg);
    sequences(ctx, "all-kinds", &(0..KINDS.len()).collect::<Vec<_>>(), 3, 3, &reg);
    sequences(ctx, "read-filter-join", &[1, 2, 3], 4, ctx.pick(5, 6), &reg);
    sequences(ctx, "leaf-single-multi", &[7, 8, 9], 4, ctx.pick(5, 6), &reg);
    sequences(ctx, "set-cross-virtual", &[4, 5, 10], 4, ctx.pick(4, 6), &reg);
    sequences(ctx, "multi-only", &[9], 6, ctx.pick(7, 8), &reg);
    sequences(ctx, "set-read", &[1, 4], 4, ctx.pick(5, 7), &reg);
    // Lines that are no relations of their own between those that are: the
    // tree is the one without them.
    use super::c16::{L, check as annotated};
    let letters = |name: &str, kinds: &[L], depths: u64, max: u32| {
        let n = kinds.len() as u64 * depths;
        ctx.space(name, seq_count(n, max), |i, case| {
            let lines: Vec<(usize, L)> =
                seq_decode(i, n).into_iter().map(|k| (k % depths as usize, kinds[k / depths as usize])).collect();
            if !lines.is_empty() {
                annotated(case, &lines, &reg);
            }
        });
    };
    letters("annotated-chains", &[L::Read, L::Filter, L::Opt], 4, ctx.pick(5, 6));
    letters("annotated-trees", &[L::Root, L::Read, L::Virtual, L::Cross, L::Enh, L::Opt], 3, ctx.pick(4, 5));
    letters("annotated-kinds", &[L::Root, L::Read, L::ReadExt, L::Virtual, L::Filter, L::Cross, L::Single, L::Leaf, L::Enh, L::Opt, L::Ext], 4, ctx.pick(3, 4));
    // Well-formed forests exhaustively: only sequences that the model accepts,
    // generated by extending prefixes that still can be completed.
    let mut pool: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut all: Vec<Vec<(usize, usize)>> = vec![];
    for _ in 0..ctx.pick(6, 8) {
        let mut next = vec![];
        for p in &pool {
            let deepest = p.last().map(|l: &(usize, usize)| l.0 + 1).unwrap_or(0);
            for d in 0..=deepest.min(5) {
                for k in [0, 1, 2, 3, 9] {
                    if (k == 0) != (d == 0 && k == 0) {
                        continue;
                    }
                    let mut q = p.clone();
                    q.push((d, k));
                    // No line may have more inputs than its kind takes.
                    let mut fits = true;
                    for (i, (di, ki)) in q.iter().enumerate() {
                        let kids = q[i + 1..].iter().take_while(|l| l.0 > *di).filter(|l| l.0 == di + 1).count();
                        let most = match KINDS[*ki] {
                            "Root" | "Filter" => 1,
                            "Read" => 0,
                            "Join" => 2,
                            _ => 9,
                        };
                        // A line that is already closed needs all its inputs.
                        let closed = q[i + 1..].iter().any(|l| l.0 <= *di);
                        fits &= kids <= most && !(closed && !arity_ok(*ki, kids));
                    }
                    if fits {
                        next.push(q);
                    }
                }
            }
        }
        all.extend(next.iter().filter(|q| forest(q).is_ok()).cloned());
        pool = next;
        if pool.len() > ctx.pick(60_000, 1_500_000) {
            break;
        }
    }
    ctx.space("well-formed-forests", all.len() as u64, |i, case| {
        check(case, &all[i as usize], &reg);
    });
    // Every single change of depth or kind in a well-formed forest.
    let base: Vec<&Vec<(usize, usize)>> = all.iter().filter(|l| l.len() <= 6).step_by(ctx.pick(7, 1)).collect();
    ctx.space("forests-with-one-line-moved", base.len() as u64 * 6 * 8, |i, case| {
        let mut r = Radix(i);
        let (at, to) = (r.take(6), r.take(8));
        let mut l = base[r.0 as usize].clone();
        if at >= l.len() || l[at].0 == to {
            return;
        }
        l[at].0 = to;
        check(case, &l, &reg);
    });
    // Indentation that is not a whole number of levels.
    let pads = ["", " ", "  ", "   ", "\t", "  \t", "\u{a0}\u{a0}", "    "];
    let n = pads.len() as u64;
    ctx.space("odd-indentation", n * n * n, |i, case| {
        let mut r = Radix(i);
        let p: Vec<&str> = (0..3).map(|_| *r.pick(&pads)).collect();
        let t = format!("=== Plan\n{}Filter[$0 => $0]\n{}Filter[$1 => $0]\n{}Read[t2 => c:i64]\n", p[0], p[1], p[2]);
        if p == ["", "  ", "    "] {
            case.state(&t);
            let d = doc_of(&forest(&[(0, 2), (1, 2), (2, 1)]).unwrap());
            let d = Doc { tops: d.tops, ..Doc::default() };
            parses_to(case, &t, &d.proto(), &reg);
        } else {
            rejected(case, &t, "the indentation is not the documented one", &reg);
        }
    });
    // Blank lines between the lines of a tree change nothing.
    let small: Vec<&Vec<(usize, usize)>> = all.iter().filter(|l| l.len() <= 4).collect();
    let blanks = ["", "\n", "   \n", "\r\n", "\t\n\n"];
    ctx.space("blank-lines", small.len() as u64 * 25, |i, case| {
        let mut r = Radix(i);
        let (a, b) = (*r.pick(&blanks), *r.pick(&blanks));
        let l = small[r.0 as usize];
        let mut t = String::from("=== Plan\n");
        for (j, (d, k)) in l.iter().enumerate() {
            t.push_str(if j % 2 == 0 { a } else { b });
            t.push_str(&format!("{}{}\n", "  ".repeat(*d), line(*k, j)));
        }
        case.state(&t);
        parses_to(case, &t, &doc_of(&forest(l).unwrap()).proto(), &reg);
    });
    // Deep and wide trees.
    ctx.space("deep-and-wide", ctx.pick(200, 400), |i, case| {
        let n = i as usize + 1;
        let mut deep: Vec<(usize, usize)> = (0..n).map(|d| (d, 2)).collect();
        deep.push((n, 1));
        check(case, &deep, &reg);
        let mut wide: Vec<(usize, usize)> = vec![(0, 9)];
        wide.extend((0..n).map(|_| (1, 1)));
        check(case, &wide, &reg);
        // A comb: joins to the left and to the right.
        let m = n.min(60);
        let mut comb = vec![];
        for d in 0..m {
            comb.push((d, 3));
            comb.push((d + 1, 1));
        }
        comb.push((m, 1));
        check(case, &comb, &reg);
        let mut left: Vec<(usize, usize)> = (0..m).map(|d| (d, 3)).collect();
        left.push((m, 1));
        left.extend((1..=m).rev().map(|d| (d, 1)));
        check(case, &left, &reg);
        // Skipping a level anywhere in the chain is refused.
        let mut bad = deep.clone();
        bad[n].0 = n + 1;
        check(case, &bad, &reg);
    });
    counts(ctx, &reg);
}

/// Every operator over every number of inputs, of every small width.
fn counts(ctx: &Ctx, reg: &ExtensionRegistry) {
    use crate::pools::{cols, doc1, read};
    let p = || pay(3);
    let t = || lit(V::Bool(true));
    let mut ops: Vec<Op> = vec![
        Op::Read(vec!["t".into()], cols(1)),
        Op::Read(vec!["t".into()], vec![]),
        Op::Virtual { rows: vec![vec![int(1)]], filter: None, cols: cols(1) },
        Op::Virtual { rows: vec![], filter: Some(t()), cols: vec![] },
        Op::ReadExt(cols(1), Pay { id: 0, args: Args::default() }),
        Op::ReadExt(vec![], Pay { id: 0, args: Args::default() }),
        Op::Filter(t()),
        Op::Project(vec![int(1)]),
        Op::Sort(vec![(Ex::Ref(0), 1)]),
        Op::Fetch(Some(int(1)), None),
        Op::Fetch(None, None),
        Op::Agg(vec![Ex::Ref(0)], vec![vec![0]], vec![]),
        Op::Agg(vec![], vec![vec![]], vec![(1, vec![Ex::Ref(0)], simple("i64"))]),
        Op::Cross,
        Op::ExtLeaf(p()),
        Op::ExtSingle(p()),
        Op::ExtMulti(p()),
    ];
    ops.extend((0..12).map(|k| Op::Join(k, t(), None)));
    ops.push(Op::Join(0, t(), Some(t())));
    ops.extend((0..8).map(Op::Set));
    let arity = |op: &Op, n: usize| match op {
        Op::Read(..) | Op::Virtual { .. } | Op::ReadExt(..) | Op::ExtLeaf(_) => n == 0,
        Op::Join(..) | Op::Cross => n == 2,
        Op::Set(_) => n >= 2,
        Op::ExtMulti(_) => true,
        _ => n == 1,
    };
    let some = |op: &Op| match op {
        Op::Read(..) | Op::Virtual { .. } | Op::ReadExt(..) | Op::ExtLeaf(_) => 0,
        Op::Join(..) | Op::Cross | Op::Set(_) => 2,
        _ => 1,
    };
    let ns: Vec<usize> = (0..ctx.pick(12, 40)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
    // At the top, below a root, and below another operator.
    ctx.space("input-counts", (ops.len() * 3 * ns.len() * 3) as u64, |i, case| {
        let mut r = Radix(i);
        let (op, w, n, up) = (r.pick(&ops).clone(), r.take(3), *r.pick(&ns), r.take(3));
        let mapped = matches!(op, Op::Filter(_) | Op::Sort(_) | Op::Fetch(..) | Op::Cross | Op::Join(..) | Op::Set(_));
        let make = |n: usize| {
            let mut x = rel(op.clone(), vec![read(w); n]);
            if matches!(op, Op::Project(_)) && w > 0 {
                x.emit = Some(vec![w as i32]);
            }
            if mapped {
                x.emit = Some(vec![9]);
            }
            x
        };
        // The lines of the operator itself, then those of its inputs.
        let plan = |d: Doc| d.text(&Opts::default()).split_once("=== Plan\n").unwrap().1.to_string();
        let own = plan(doc1(make(some(&op)))).replace("!{Emitted}", "$9");
        let mut lines: Vec<String> = own.lines().map(String::from).collect();
        lines.truncate(lines.len() - some(&op));
        let kid = plan(doc1(read(w)));
        lines.extend((0..n).map(|_| format!("  {}", kid.trim_end())));
        let (head, depth) = match up {
            0 => ("", 0),
            1 => ("Root[r]\n", 1),
            _ => ("ExtensionSingle:RecA[3 => c:i64]\n", 1),
        };
        let body: String = lines.iter().map(|l| format!("{}{l}\n", "  ".repeat(depth))).collect();
        let text = format!("{}=== Plan\n{head}{body}", crate::pools::env().text("  "));
        if !arity(&op, n) {
            rejected(case, &text, &format!("{n} inputs"), reg);
            return;
        }
        let x = make(n);
        let d = match up {
            0 => doc1(x),
            1 => crate::pools::doc(vec![Top::Root(vec!["r".into()], x)]),
            _ => doc1(rel(Op::ExtSingle(p()), vec![x])),
        };
        case.state(&text);
        if parses_to(case, &text, &d.proto(), reg) {
            case.outcome("accepted");
        }
    });
    // A root takes one input, whatever it is.
    ctx.space("root-inputs", (ns.len() * 3 * 3) as u64, |i, case| {
        let mut r = Radix(i);
        let (n, w, names) = (*r.pick(&ns), r.take(3), r.take(3));
        let kid = doc1(read(w)).text(&Opts::default()).split_once("=== Plan\n").unwrap().1.to_string();
        let root: Vec<String> = (0..names).map(|i| format!("r{i}")).collect();
        let text = format!("{}=== Plan\nRoot[{}]\n{}", crate::pools::env().text("  "), root.join(", "), format!("  {kid}").repeat(n));
        if n != 1 {
            rejected(case, &text, &format!("a root over {n} relations"), reg);
            return;
        }
        case.state(&text);
        parses_to(case, &text, &crate::pools::doc(vec![Top::Root(root, read(w))]).proto(), reg);
    });
}
