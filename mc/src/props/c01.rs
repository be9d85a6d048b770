//! C01: relation trees round-trip.
use crate::common::{formats_to, format, options, parse, parses_to, rejected, round_trip};
use crate::engine::{Case, Ctx, Radix, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;
use crate::pools::*;
use substrait_explain::extensions::ExtensionRegistry;

/// format(parse(format(p))) == format(p), without errors: for plans whose text
/// does not determine the message (an expression that is a plain reference, a
/// mapping that repeats an expression).
pub fn fixpoint(case: &mut Case, doc: &Doc, reg: &ExtensionRegistry) {
    let o = Opts::default();
    let want = doc.text(&o);
    case.state(&want);
    let Some((text, errs)) = format(case, &doc.proto(), &options(&o), reg, &want) else { return };
    case.trace();
    if text != want || !errs.is_empty() {
        case.fail("other-text", &format!("formatted as:\n{text}\nerrors: {errs:?}"), &want);
        return;
    }
    let Some(parsed) = parse(case, &text, reg) else { return };
    match parsed {
        Err(e) => case.fail("rejected", &format!("the formatter's own text was rejected: {e}"), &text),
        Ok(p) => {
            let Some((again, errs)) = format(case, &p, &options(&o), reg, &text) else { return };
            case.trace();
            if again != text || !errs.is_empty() {
                case.fail("no-fixpoint", &format!("text changed to:\n{again}\nerrors: {errs:?}"), &text);
            } else {
                case.outcome("fixpoint");
            }
        }
    }
}

fn sum(a: i32) -> (u32, Vec<Ex>, Ty) {
    (11, vec![Ex::Ref(a)], simple("i64").nullable())
}

fn leaf(k: usize) -> Rel {
    match k {
        0 => read(2),
        1 => rel(
            Op::Virtual {
                rows: vec![vec![int(1), lit(V::Str("x".into()))], vec![int(2), lit(V::Str("y".into()))]],
                filter: None,
                cols: cols(2),
            },
            vec![],
        ),
        _ => {
            let mut r = rel(Op::Read(vec!["db".into(), "s t".into()], cols(3)), vec![]);
            r.emit = Some(vec![2, 0]);
            r
        }
    }
}
const LEAVES: usize = 3;

fn unary(k: usize, kid: Rel) -> Rel {
    let k0 = vec![kid];
    match k {
        0 => rel(Op::Filter(Ex::Call(1000, vec![Ex::Ref(0), int(3)], simple("boolean"))), k0),
        1 => rel(Op::Project(vec![Ex::Call(1, vec![Ex::Ref(0), Ex::Ref(1)], simple("i64"))]), k0),
        2 => rel(
            Op::Agg(vec![Ex::Ref(1), Ex::Ref(0)], vec![vec![0], vec![0, 1], vec![]], vec![sum(0), (3, vec![], simple("i64"))]),
            k0,
        ),
        3 => rel(Op::Sort(vec![(Ex::Ref(0), 0), (Ex::Ref(1), 3)]), k0),
        4 => rel(Op::Fetch(Some(int(10)), Some(int(5))), k0),
        _ => {
            let w = width(&k0[0]) as i32;
            let mut r = rel(Op::Project(vec![Ex::Cast(Box::new(Ex::Ref(0)), 1, simple("i8"))]), k0);
            r.emit = Some(vec![w, 0]);
            r
        }
    }
}
const UNARY: usize = 6;

fn binary(k: usize, l: Rel, r: Rel) -> Option<Rel> {
    let same = width(&l) == width(&r);
    let kids = vec![l, r];
    Some(match k {
        0 => rel(Op::Join(0, Ex::Call(1000, vec![Ex::Ref(0), Ex::Ref(1)], simple("boolean")), None), kids),
        1 => rel(Op::Join(4, lit(V::Bool(true)), Some(Ex::Ref(0))), kids),
        2 => rel(Op::Cross, kids),
        _ if same => rel(Op::Set(7), kids),
        _ => return None,
    })
}
const BINARY: usize = 4;

/// Every tree with exactly n nodes over the operators above.
fn trees(max: usize) -> Vec<Vec<Rel>> {
    let mut t: Vec<Vec<Rel>> = vec![vec![], (0..LEAVES).map(leaf).collect()];
    for n in 2..=max {
        let mut v = vec![];
        for kid in &t[n - 1] {
            for k in 0..UNARY {
                v.push(unary(k, kid.clone()));
            }
        }
        for a in 1..n - 1 {
            for l in &t[a] {
                for r in &t[n - 1 - a] {
                    for k in 0..BINARY {
                        v.extend(binary(k, l.clone(), r.clone()));
                    }
                }
            }
        }
        t.push(v);
    }
    t
}

/// Sequences over `refs` with each of `exprs` exactly once, in order.
pub fn ordered_mappings(refs: i32, from: i32, exprs: i32, max: u32) -> Vec<Vec<i32>> {
    let mut out = vec![];
    for m in all_mappings((refs + exprs) as usize, max) {
        // Positions ≥ refs stand for expressions.
        let es: Vec<i32> = m.iter().filter(|i| **i >= refs).map(|i| i - refs).collect();
        if es == (0..exprs).collect::<Vec<_>>() {
            out.push(m.iter().map(|i| if *i >= refs { i - refs + from } else { *i }).collect());
        }
    }
    out
}

fn non_identity(m: Vec<i32>, direct: usize) -> Option<Vec<i32>> {
    (m != (0..direct as i32).collect::<Vec<_>>()).then_some(m)
}

pub fn run(ctx: &Ctx) {
    crate::words::relations(ctx);
    crate::words::relations_everywhere(ctx);
    crate::words::edits(ctx);
    let reg = registry();
    let top = |r: Rel| doc1(r);

    // Whole trees.
    let t = trees(ctx.pick(5, 6));
    for (n, pool) in t.iter().enumerate().skip(1) {
        ctx.space(&format!("all-trees-of-{n}"), pool.len() as u64 * 2, |i, case| {
            let r = pool[i as usize / 2].clone();
            let d = if i % 2 == 0 { top(r) } else { doc(vec![Top::Root(vec!["a".into(), "b c".into()], r)]) };
            round_trip(case, &d, &reg);
        });
    }
    if !ctx.quick() {
        // One more node, enumerated without storing the trees.
        let n = t[6].len() as u64 * UNARY as u64;
        ctx.space("unary-over-trees-of-6", n, |i, case| {
            let mut r = Radix(i);
            let k = r.take(UNARY);
            round_trip(case, &top(unary(k, t[6][r.0 as usize].clone())), &reg);
        });
        let pairs: Vec<(usize, usize)> = vec![(1, 5), (2, 4), (3, 3), (4, 2), (5, 1)];
        for (a, b) in pairs {
            let (x, y) = (&t[a], &t[b]);
            ctx.space(&format!("binary-over-{a}-and-{b}"), (x.len() * y.len() * BINARY) as u64, |i, case| {
                let mut r = Radix(i);
                let k = r.take(BINARY);
                let (l, q) = (r.pick(x).clone(), r.pick(y).clone());
                if let Some(t) = binary(k, l, q) {
                    round_trip(case, &top(t), &reg);
                }
            });
        }
    }
    // Trees with a mapping at every node: kinds of mapping on each node.
    let small: Vec<Rel> = t[1].iter().chain(&t[2]).chain(&t[3]).chain(t[4].iter().step_by(ctx.pick(7, 1))).cloned().collect();
    ctx.space("mappings-over-trees", small.len() as u64 * 64, |i, case| {
        let mut r = Radix(i);
        let code = r.take(64);
        let mut tree = small[r.0 as usize].clone();
        let mut n = 0;
        fn visit(t: &mut Rel, code: usize, n: &mut usize) {
            for k in &mut t.kids {
                visit(k, code, n);
            }
            let choice = (code >> (2 * (*n % 3))) & 3;
            *n += 1;
            let w = direct_width(t) as i32;
            if matches!(t.op, Op::Virtual { .. }) {
                return;
            }
            // Mappings that keep every expression and measure in order.
            let m = match (choice, &t.op) {
                (0, Op::Project(_)) => {
                    // Its own mapping was for another input width.
                    t.emit = None;
                    return;
                }
                (0, _) => return,
                (1, Op::Project(e)) => {
                    let k = w - e.len() as i32;
                    (k..w).chain(0..k.min(1)).collect::<Vec<_>>()
                }
                (1, Op::Agg(g, _, _)) => {
                    let k = g.len() as i32;
                    (k..w).chain((0..k).rev()).collect()
                }
                (1, _) => (0..w).rev().collect(),
                (2, Op::Project(e)) => {
                    let k = w - e.len() as i32;
                    (0..k.min(1)).chain(k..w).chain(0..k.min(2)).collect()
                }
                (2, Op::Agg(g, _, _)) => {
                    let k = g.len() as i32;
                    [0, 0].into_iter().chain(k..w).collect()
                }
                (2, _) => (0..w.min(1)).chain(0..w.min(1)).collect(),
                (_, Op::Project(e)) => (w - e.len() as i32..w).collect(),
                (_, Op::Agg(g, ..)) => (g.len() as i32..w).collect(),
                _ => vec![],
            };
            t.emit = non_identity(m, w as usize);
        }
        visit(&mut tree, code, &mut n);
        // Set inputs must agree in width.
        fn fine(t: &Rel) -> bool {
            t.kids.iter().all(fine) && (!matches!(t.op, Op::Set(_)) || t.kids.iter().all(|k| width(k) == width(&t.kids[0])))
        }
        if fine(&tree) {
            round_trip(case, &top(tree), &reg);
        } else {
            case.outcome("set inputs of different widths");
        }
    });
    // Chains: every word of unary operators, and long ones.
    let len = ctx.pick(5, 7);
    ctx.space("unary-chains", seq_count(UNARY as u64, len), |i, case| {
        let mut r = leaf(i as usize % LEAVES);
        for k in seq_decode(i, UNARY as u64) {
            r = unary(k, r);
        }
        round_trip(case, &top(r), &reg);
    });
    ctx.space("deep-chains", 7 * 60, |i, case| {
        let (k, n) = ((i % 7) as usize, i / 7 + 1);
        let mut r = read(1);
        for j in 0..n {
            r = match k {
                // Aggregates, projections and right-deep joins grow the width; keep it bounded.
                6 => rel(Op::Join(5, Ex::Ref(0), None), vec![read(1), r]),
                2 => rel(Op::Agg(vec![Ex::Ref(0)], vec![vec![0]], vec![sum(j as i32 % 3)]), vec![r]),
                k => unary(k, r),
            };
            if k == 6 {
                r.emit = Some(vec![0, 0]);
            }
        }
        round_trip(case, &top(r), &reg);
    });
    // Several top-level relations.
    let pool: Vec<Top> = vec![
        Top::Rel(read(1)),
        Top::Rel(unary(0, read(2))),
        Top::Rel(rel(Op::Cross, vec![read(1), unary(3, read(2))])),
        Top::Root(vec![], read(0)),
        Top::Root(vec!["x".into()], unary(2, read(2))),
        Top::Rel(leaf(1)),
        Top::Rel(rel(
            Op::Virtual { rows: vec![vec![int(1)]; 4], filter: Some(Ex::Ref(0)), cols: cols(1) },
            vec![],
        )),
    ];
    let m = pool.len() as u64;
    ctx.space("top-level-sequences", seq_count(m, ctx.pick(4, 5)), |i, case| {
        let tops: Vec<Top> = seq_decode(i, m).into_iter().map(|k| pool[k].clone()).collect();
        if tops.is_empty() {
            return;
        }
        round_trip(case, &doc(tops.clone()), &reg);
        let bare = Doc { env: Env::default(), tops, version: None };
        // Without declarations, only documents that use none.
        if !bare.text(&Opts::default()).contains("!{") {
            round_trip(case, &bare, &reg);
        }
    });

    // Reads: table parts, columns and explicit mappings (kept even if identity).
    let maps: Vec<Vec<i32>> = all_mappings(3, ctx.pick(4, 6));
    ctx.space("read-mappings", (maps.len() * 4) as u64, |i, case| {
        let mut r = Radix(i);
        let w = r.take(4);
        let m = r.pick(&maps).clone();
        if m.iter().any(|k| *k >= w as i32) {
            return;
        }
        let mut x = read(w);
        x.emit = Some(m);
        round_trip(case, &top(x.clone()), &reg);
        round_trip(case, &top(unary(0, x)), &reg);
    });
    crate::sweeps::run(ctx, crate::sweeps::RELATIONS, ctx.pick(150, 700), ctx.pick(1025, 8193), &reg);
    ctx.space("read-widths", 130, |i, case| {
        round_trip(case, &top(read(i as usize)), &reg);
        if i < 40 {
            let c: Vec<(String, Ty)> = (0..i as usize).map(|k| (format!("n {k}"), few_types()[k % 9].clone())).collect();
            round_trip(case, &doc(vec![Top::Root(vec![], rel(Op::Read(vec!["a.b".into(), "c".into()], c), vec![]))]), &reg);
        }
    });
    // Virtual tables.
    ctx.space("virtual-shapes", 7 * 5 * 5 * 3, |i, case| {
        let mut r = Radix(i);
        let (rows, arity, nc) = (r.take(7), r.take(5), r.take(5));
        let f = [None, Some(Ex::Ref(0)), Some(Ex::Call(4, vec![lit(V::Str("=> ]".into()))], simple("boolean")))][r.take(3)].clone();
        let rows = (0..rows)
            .map(|a| (0..arity).map(|b| [int((a * 7 + b) as i64), lit(V::Str("p, (q".into())), Ex::Ref(b as i32), lit(V::F64(0.5)), Ex::Lit(null_lit(simple("i64").nullable()))][(a + b) % 5].clone()).collect())
            .collect();
        round_trip(case, &top(rel(Op::Virtual { rows, filter: f, cols: cols(nc) }, vec![])), &reg);
    });
    // Single-input relations with every mapping over a small width.
    let singles: Vec<Op> = vec![
        Op::Filter(Ex::Ref(0)),
        Op::Filter(lit(V::Bool(false))),
        Op::Sort(vec![]),
        Op::Sort(vec![(Ex::Ref(1), 1)]),
        Op::Sort(vec![(Ex::Ref(1), 4), (int(1), 2), (Ex::Call(4, vec![], simple("i8")), 0)]),
        Op::Fetch(None, None),
        Op::Fetch(Some(int(0)), None),
        Op::Fetch(None, Some(int(i64::MAX))),
        Op::Fetch(Some(int(1)), Some(int(0))),
    ];
    ctx.space("single-input-mappings", (maps.len() * singles.len() * 4) as u64, |i, case| {
        let mut r = Radix(i);
        let op = r.pick(&singles).clone();
        let w = r.take(4);
        let m = r.pick(&maps).clone();
        if m.iter().any(|k| *k >= w as i32) {
            return;
        }
        let mut x = rel(op, vec![read(w)]);
        x.emit = non_identity(m, w);
        round_trip(case, &top(x), &reg);
    });
    // Projections.
    let pex = [
        int(1),
        Ex::Call(1, vec![Ex::Ref(0)], simple("i64")),
        Ex::Cast(Box::new(Ex::Ref(1)), 0, simple("string")),
        Ex::If(vec![(Ex::Ref(0), int(1))], Box::new(int(2))),
        lit(V::Str("$0, $1".into())),
    ];
    let lists = seq_count(5, 3);
    ctx.space("projections", lists * 4 * ctx.pick(40, 200), |i, case| {
        let mut r = Radix(i);
        let es: Vec<Ex> = seq_decode(r.take(lists as usize) as u64, 5).into_iter().map(|k| pex[k].clone()).collect();
        let w = r.take(4);
        let maps = ordered_mappings(w.min(2) as i32, w as i32, es.len() as i32, (es.len() + 2) as u32);
        let k = r.0 as usize;
        let direct = w + es.len();
        let emit = if k == 0 { None } else {
            // Spread the available mappings over the index.
            let n = ctx.pick(39, 199);
            let idx = if maps.len() <= n { k - 1 } else { (k - 1) * maps.len() / n };
            match maps.get(idx) {
                Some(m) => non_identity(m.clone(), direct),
                None => return,
            }
        };
        let mut x = rel(Op::Project(es), vec![read(w)]);
        x.emit = emit;
        round_trip(case, &top(x), &reg);
    });
    // Aggregates: sequences of grouping sets over up to three expressions.
    let gex = [
        [Ex::Ref(0), Ex::Ref(1), Ex::Ref(2)],
        [Ex::Ref(2), Ex::Call(1, vec![Ex::Ref(0)], simple("i64")), Ex::Ref(0)],
        [Ex::Cast(Box::new(Ex::Ref(0)), 0, simple("i32")), int(1), Ex::Ref(1)],
    ];
    let mut sets: Vec<Vec<usize>> = vec![];
    for i in 0..seq_count(3, 3) {
        let s = seq_decode(i, 3);
        if (0..s.len()).all(|k| !s[..k].contains(&s[k])) {
            sets.push(s);
        }
    }
    let ns = sets.len() as u64;
    let seqs = seq_count(ns, ctx.pick(2, 3));
    ctx.space("aggregates", seqs * 3 * 4 * 4, |i, case| {
        let mut r = Radix(i);
        let ss: Vec<Vec<usize>> = seq_decode(r.take(seqs as usize) as u64, ns).into_iter().map(|k| sets[k].clone()).collect();
        if ss.is_empty() {
            return;
        }
        // Number expressions by first occurrence.
        let mut order: Vec<usize> = vec![];
        for k in ss.iter().flatten() {
            if !order.contains(k) {
                order.push(*k);
            }
        }
        let g = r.pick(&gex);
        let ex: Vec<Ex> = order.iter().map(|k| g[*k].clone()).collect();
        let ss: Vec<Vec<usize>> = ss.iter().map(|s| s.iter().map(|k| order.iter().position(|o| o == k).unwrap()).collect()).collect();
        let ms = [vec![], vec![sum(0)], vec![(3, vec![], simple("i64")), sum(1)], vec![sum(1), sum(1)]][r.take(4)].clone();
        let (ng, nm) = (ex.len() as i32, ms.len() as i32);
        let emit = match r.take(4) {
            0 => None,
            1 => non_identity((ng..ng + nm).chain(0..ng).collect(), (ng + nm) as usize),
            2 => non_identity((ng..ng + nm).collect(), (ng + nm) as usize),
            _ => non_identity((0..ng).rev().chain(ng..ng + nm).chain(0..ng.min(1)).collect(), (ng + nm) as usize),
        };
        let mut x = rel(Op::Agg(ex, ss, ms), vec![read(3)]);
        x.emit = emit;
        round_trip(case, &top(x), &reg);
    });
    deprecated_groupings(ctx, &reg);
    // Joins, sets, cross products: kinds, widths, mappings.
    ctx.space("joins", 12 * 4 * 4 * 3 * 9, |i, case| {
        let mut r = Radix(i);
        let (k, a, b) = (r.take(12), r.take(4), r.take(4));
        let pf = [None, Some(Ex::Ref(0)), Some(Ex::Call(4, vec![Ex::Ref(1)], simple("boolean")))][r.take(3)].clone();
        let mut x = rel(Op::Join(k, Ex::Call(1000, vec![Ex::Ref(0), Ex::Ref(a as i32)], simple("boolean")), pf), vec![read(a), read(b)]);
        let es = emits(direct_width(&x));
        let Some(e) = es.get(r.take(9)) else { return };
        x.emit = e.clone();
        round_trip(case, &top(x.clone()), &reg);
        round_trip(case, &top(rel(Op::Cross, vec![x.clone(), read(1)])), &reg);
        round_trip(case, &top(rel(Op::Sort(vec![(Ex::Ref(0), 0)]), vec![x])), &reg);
    });
    ctx.space("sets", 8 * 6 * 4 * 9, |i, case| {
        let mut r = Radix(i);
        let (k, n, w) = (r.take(8), r.take(6) + 2, r.take(4));
        let mut x = rel(Op::Set(k), (0..n).map(|_| read(w)).collect());
        let es = emits(w);
        let Some(e) = es.get(r.take(9)) else { return };
        x.emit = e.clone();
        round_trip(case, &top(x.clone()), &reg);
        round_trip(case, &top(rel(Op::Join(0, Ex::Ref(0), None), vec![x.clone(), x])), &reg);
    });
    ctx.space("crosses", 5 * 5 * 9, |i, case| {
        let mut r = Radix(i);
        let (a, b) = (r.take(5), r.take(5));
        let es = emits(a + b);
        let Some(e) = es.get(r.take(9)) else { return };
        let mut x = rel(Op::Cross, vec![read(a), read(b)]);
        x.emit = e.clone();
        round_trip(case, &top(x.clone()), &reg);
        round_trip(case, &top(rel(Op::Filter(Ex::Ref(0)), vec![x])), &reg);
    });
    // Plans whose text denotes a different message: the text is a fixpoint.
    ctx.space("projection-fixpoints", 3 * 4 * 400, |i, case| {
        let mut r = Radix(i);
        let w = r.take(3);
        let n = r.take(4);
        let es: Vec<Ex> = (0..n).map(|k| if (k + w) % 2 == 0 && k < w { Ex::Ref(k as i32) } else { pex[k].clone() }).collect();
        let maps = all_mappings(w + n, 4);
        let Some(m) = maps.get(r.0 as usize * maps.len() / 400) else { return };
        let mut x = rel(Op::Project(es), vec![read(w)]);
        x.emit = Some(m.clone());
        fixpoint(case, &top(x.clone()), &reg);
        fixpoint(case, &top(rel(Op::Filter(Ex::Ref(0)), vec![x])), &reg);
    });
    ctx.space("aggregate-fixpoints", 3 * 3 * 200, |i, case| {
        let mut r = Radix(i);
        let (g, n) = (r.take(3), r.take(3));
        let ex: Vec<Ex> = (0..g).map(|k| Ex::Ref((k as i32) / 2)).collect();
        let sets = vec![(0..g).collect::<Vec<_>>(), vec![]];
        let maps = all_mappings(g + n, 3);
        let Some(m) = maps.get(r.0 as usize * maps.len() / 200) else { return };
        let mut x = rel(Op::Agg(ex, sets, (0..n).map(|k| sum(k as i32)).collect()), vec![read(2)]);
        x.emit = Some(m.clone());
        fixpoint(case, &top(x.clone()), &reg);
    });
    ctx.space("identity-mapping-fixpoints", 12 * 5, |i, case| {
        // An explicit identity mapping writes the same text as none.
        let mut r = Radix(i);
        let w = r.take(5);
        let mut x = match r.take(12) {
            k @ 0..=4 => unary(k, read(w)),
            5 => rel(Op::Cross, vec![read(w), read(1)]),
            6 => rel(Op::Set(3), vec![read(w), read(w)]),
            7 => rel(Op::Join(0, Ex::Ref(0), None), vec![read(w), read(2)]),
            8 => rel(Op::Join(10, Ex::Ref(0), None), vec![read(w), read(2)]),
            9 => rel(Op::Join(9, Ex::Ref(0), None), vec![read(w), read(2)]),
            10 => rel(Op::Virtual { rows: vec![vec![int(1)]], filter: None, cols: cols(w) }, vec![]),
            _ => rel(Op::Sort(vec![]), vec![read(w)]),
        };
        x.emit = Some((0..direct_width(&x) as i32).collect());
        fixpoint(case, &top(x.clone()), &reg);
        // And parsing it gives the plan without a mapping.
        let mut plain = x.clone();
        plain.emit = None;
        let text = top(x).text(&Opts::default());
        parses_to(case, &text, &top(plain).proto(), &reg);
    });
    // Accepted spellings that are not the canonical one.
    let pre = env().text("  ");
    let f = |r: Rel| top(r);
    let alt: Vec<(String, Doc)> = vec![
        ("Fetch[offset=5, limit=10 => $0]\n  Read[t => c0:i64]".into(), f(rel(Op::Fetch(Some(int(10)), Some(int(5))), vec![read(1)]))),
        ("Fetch[limit = 10 , offset = 5 => $0]\n  Read[t => c0:i64]".into(), f(rel(Op::Fetch(Some(int(10)), Some(int(5))), vec![read(1)]))),
        ("Sort[ => $0]\n  Read[t => c0:i64]".into(), f(rel(Op::Sort(vec![]), vec![read(1)]))),
        ("Read[t +> c0:i64]".into(), f(read(1))),
        ("Read[t => c0:i64,   c1:string?]".into(), f(read(2))),
        ("Read[t    =>    c0:i64]".into(), f(read(1))),
        ("Filter[$0   =>   $0 ,  $1]\n  Read[t => c0:i64, c1:string?]".into(), f(rel(Op::Filter(Ex::Ref(0)), vec![read(2)]))),
        ("Read[\"t\" => \"c0\":i64]".into(), f(read(1))),
        ("Read[t => c0:i64]\n\n\n".into(), f(read(1))),
        ("\nFilter[$0 => $0]\n\n  Read[t => c0:i64]\n\n".into(), f(rel(Op::Filter(Ex::Ref(0)), vec![read(1)]))),
        ("Filter[$0 => $0]\r\n  Read[t => c0:i64]\r\n".into(), f(rel(Op::Filter(Ex::Ref(0)), vec![read(1)]))),
        ("Filter[$0 => $0]   \n  Read[t => c0:i64]  \n".into(), f(rel(Op::Filter(Ex::Ref(0)), vec![read(1)]))),
        ("Aggregate[($0) => $0]\n  Read[t => c0:i64]".into(), f(rel(Op::Agg(vec![Ex::Ref(0)], vec![vec![0]], vec![]), vec![read(1)]))),
        ("Aggregate[( $0 , $1 ),_ => $0,$1]\n  Read[t => c0:i64, c1:string?]".into(), f(rel(Op::Agg(vec![Ex::Ref(0), Ex::Ref(1)], vec![vec![0, 1], vec![]], vec![]), vec![read(2)]))),
        ("Root[ ]\n  Read[t => c0:i64]".replace("[ ]", "[]"), doc(vec![Top::Root(vec![], read(1))])),
        ("Root[a , \"b\"]\n  Read[t => c0:i64]".into(), doc(vec![Top::Root(vec!["a".into(), "b".into()], read(1))])),
        ("Sort[( $0 , &Clustered ) => $0]\n  Read[t => c0:i64]".into(), f(rel(Op::Sort(vec![(Ex::Ref(0), 4)]), vec![read(1)]))),
        ("Join[&Inner , true , post_filter = false => $0, $1]\n  Read[t => c0:i64]\n  Read[t => c0:i64]".into(), f(rel(Op::Join(0, lit(V::Bool(true)), Some(lit(V::Bool(false)))), vec![read(1), read(1)]))),
    ];
    arguments(ctx, &reg);
    ctx.space("other-spellings", alt.len() as u64, |i, case| {
        let (t, d) = &alt[i as usize];
        let text = format!("{pre}=== Plan\n{t}");
        case.state(&text);
        parses_to(case, &text, &d.proto(), &reg);
    });
    ctx.assume("the canonical domain has each projected expression and measure exactly once and in order, grouping expressions distinct and numbered by first use; other mappings are held to a text fixpoint");
}

/// Every list of argument pieces, right and wrong, for every operator: the
/// ones the operator has are read, every other list is refused.
fn arguments(ctx: &Ctx, reg: &ExtensionRegistry) {
    type Meaning = fn(&[usize]) -> Option<Rel>;
    fn distinct(xs: &[usize]) -> bool {
        xs.iter().enumerate().all(|(i, x)| !xs[..i].contains(x))
    }
    let fetch: &[&str] = &["limit=1", "offset=2", "limit=$0", "offset=$1", "_", "limit=3:i32", "foo=3", "5", "limit=", "limit"];
    let fetch_means: Meaning = |w| {
        let one = |k: usize| -> Option<(bool, Ex)> {
            Some(match k {
                0 => (true, int(1)),
                1 => (false, int(2)),
                2 => (true, Ex::Ref(0)),
                3 => (false, Ex::Ref(1)),
                5 => (true, lit(V::I32(3))),
                _ => return None,
            })
        };
        if w == [4] {
            return Some(rel(Op::Fetch(None, None), vec![read(2)]));
        }
        let (mut limit, mut offset) = (None, None);
        for k in w {
            let (is_limit, e) = one(*k)?;
            let slot = if is_limit { &mut limit } else { &mut offset };
            if slot.replace(e).is_some() {
                return None;
            }
        }
        (!w.is_empty()).then(|| rel(Op::Fetch(limit, offset), vec![read(2)]))
    };
    let join: &[&str] = &["&Inner", "&Left", "true", "$0", "post_filter=false", "post_filter=$1", "filter=true", "_", "&Foo"];
    let join_means: Meaning = |w| {
        let kind = match w.first()? {
            k @ (0 | 1) => JOINS.iter().position(|x| x.0 == ["Inner", "Left"][*k]).unwrap(),
            _ => return None,
        };
        let cond = match w.get(1)? {
            2 => lit(V::Bool(true)),
            3 => Ex::Ref(0),
            _ => return None,
        };
        let post = match w.get(2) {
            None => None,
            Some(4) => Some(lit(V::Bool(false))),
            Some(5) => Some(Ex::Ref(1)),
            _ => return None,
        };
        (w.len() <= 3).then(|| rel(Op::Join(kind, cond, post), vec![read(1), read(1)]))
    };
    let filter: &[&str] = &["$0", "true", "_", "&Inner", "filter=$0", "($0)", "c0:i64"];
    let filter_means: Meaning = |w| match w {
        [0] => Some(rel(Op::Filter(Ex::Ref(0)), vec![read(2)])),
        [1] => Some(rel(Op::Filter(lit(V::Bool(true))), vec![read(2)])),
        _ => None,
    };
    let sort: &[&str] = &["($0, &AscNullsFirst)", "($1, &Clustered)", "(1, &DescNullsLast)", "_", "$0", "($0)", "(&AscNullsFirst, $0)", "($0, &Ascending)", "($0, &AscNullsLast, $1)", "()"];
    let sort_means: Meaning = |w| {
        if w == [3] {
            return Some(rel(Op::Sort(vec![]), vec![read(2)]));
        }
        let keys: Option<Vec<(Ex, usize)>> = w
            .iter()
            .map(|k| {
                Some(match k {
                    0 => (Ex::Ref(0), 0),
                    1 => (Ex::Ref(1), 4),
                    2 => (int(1), 3),
                    _ => return None,
                })
            })
            .collect();
        Some(rel(Op::Sort(keys?), vec![read(2)]))
    };
    let agg: &[&str] = &["$0", "$1", "true", "($0)", "($1, $0)", "_", "()", "&Inner", "a=$0", "(($0))"];
    let agg_means: Meaning = |w| {
        let e = |k: usize| [Ex::Ref(0), Ex::Ref(1), lit(V::Bool(true))][k].clone();
        let r = |es: Vec<Ex>, sets: Vec<Vec<usize>>| {
            // The output `$0` is the grouping expression that reads the same.
            let at = es.iter().position(|e| *e == Ex::Ref(0))?;
            let mut r = rel(Op::Agg(es, sets, vec![]), vec![read(2)]);
            r.emit = if direct_width(&r) == 1 { None } else { Some(vec![at as i32]) };
            Some(r)
        };
        if w.is_empty() {
            return None;
        }
        if w.iter().all(|k| *k < 3) {
            return if distinct(w) { r(w.iter().map(|k| e(*k)).collect(), vec![(0..w.len()).collect()]) } else { None };
        }
        if !w.iter().all(|k| (3..6).contains(k)) {
            return None;
        }
        let mut es: Vec<Ex> = vec![];
        let mut sets = vec![];
        for k in w {
            let parts: &[usize] = [&[0usize][..], &[1, 0], &[]][*k - 3];
            sets.push(
                parts
                    .iter()
                    .map(|p| {
                        es.iter().position(|x| *x == e(*p)).unwrap_or_else(|| {
                            es.push(e(*p));
                            es.len() - 1
                        })
                    })
                    .collect(),
            );
        }
        r(es, sets)
    };
    let set: &[&str] = &["&UnionAll", "&MinusPrimary", "&Inner", "$0", "_", "&Union", "all=true"];
    let set_means: Meaning = |w| match w {
        [k @ (0 | 1)] => Some(rel(Op::Set(SETS.iter().position(|x| x.0 == ["UnionAll", "MinusPrimary"][*k]).unwrap()), vec![read(1), read(1)])),
        _ => None,
    };
    let all: [(&str, &[&str], Meaning, &str); 6] = [
        ("Fetch", fetch, fetch_means, "$0, $1]\n  Read[t => c0:i64, c1:string?]"),
        ("Join", join, join_means, "$0, $1]\n  Read[t => c0:i64]\n  Read[t => c0:i64]"),
        ("Filter", filter, filter_means, "$0, $1]\n  Read[t => c0:i64, c1:string?]"),
        ("Sort", sort, sort_means, "$0, $1]\n  Read[t => c0:i64, c1:string?]"),
        ("Aggregate", agg, agg_means, "$0]\n  Read[t => c0:i64, c1:string?]"),
        ("Set", set, set_means, "$0]\n  Read[t => c0:i64]\n  Read[t => c0:i64]"),
    ];
    let pre = env().text("  ");
    for (name, pieces, means, tail) in all {
        let n = pieces.len() as u64;
        ctx.space(&format!("arguments-of-{name}"), seq_count(n, ctx.pick(4, 5)), |i, case| {
            let w = seq_decode(i, n);
            let list: Vec<&str> = w.iter().map(|k| pieces[*k]).collect();
            let text = format!("{pre}=== Plan\n{name}[{} => {tail}\n", list.join(", "));
            match means(&w) {
                Some(r) => {
                    case.state(&text);
                    parses_to(case, &text, &doc1(r).proto(), reg);
                }
                None if name == "Aggregate" && !w.is_empty() && (w.iter().all(|k| *k < 3) || w.iter().all(|k| (3..6).contains(k))) => case.outcome("not decided here"),
                None => {
                    rejected(case, &text, "the operator has no such arguments", reg);
                }
            }
        });
    }
}

/// Groupings that list their own expressions, as older plans do, are shown as
/// the same groupings over a common list.
pub fn deprecated_groupings(ctx: &Ctx, reg: &ExtensionRegistry) {
    let gex: Vec<Ex> = vec![Ex::Ref(0), Ex::Ref(2), Ex::Call(1, vec![Ex::Ref(0)], simple("i64"))];
    let mut all: Vec<(Vec<Ex>, Vec<Vec<usize>>)> = vec![];
    let words: Vec<Vec<usize>> = (0..seq_count(3, 3)).map(|i| seq_decode(i, 3)).filter(|s| (0..s.len()).all(|k| !s[..k].contains(&s[k]))).collect();
    for i in 1..seq_count(words.len() as u64, ctx.pick(2, 3)) {
        let ss: Vec<Vec<usize>> = seq_decode(i, words.len() as u64).iter().map(|k| words[*k].clone()).collect();
        let mut order: Vec<usize> = vec![];
        for k in ss.iter().flatten() {
            if !order.contains(k) {
                order.push(*k);
            }
        }
        let sets = ss.iter().map(|s| s.iter().map(|k| order.iter().position(|o| o == k).unwrap()).collect()).collect();
        all.push((order.iter().map(|k| gex[*k].clone()).collect(), sets));
    }
    // Long sets and many sets.
    for n in crate::sweeps::sizes(ctx.pick(40, 130), ctx.pick(300, 1025)) {
        let ex: Vec<Ex> = (0..n as i32).map(Ex::Ref).collect();
        all.push((ex.clone(), vec![(0..n).collect()]));
        all.push((ex.clone(), vec![(0..n).collect(), (0..n).rev().collect(), vec![]]));
        all.push((ex, (0..n).map(|k| vec![k]).collect()));
    }
    all.retain(|(e, _)| !e.is_empty());
    ctx.space("deprecated-groupings", all.len() as u64 * 2, |i, case| {
        let mut r = Radix(i);
        let with = r.take(2);
        let (ex, sets) = r.pick(&all).clone();
        let ms = if with == 1 { vec![(3, vec![], simple("i64"))] } else { vec![] };
        let n = ex.len().max(3);
        let d = doc1(rel(Op::Agg(ex, sets, ms), vec![read(n)]));
        let mut plan = d.proto();
        let mut moved = false;
        if let Some(substrait::proto::plan_rel::RelType::Rel(x)) = plan.relations[0].rel_type.as_mut() {
            if let Some(substrait::proto::rel::RelType::Aggregate(a)) = x.rel_type.as_mut() {
                #[allow(deprecated)]
                for g in &mut a.groupings {
                    g.grouping_expressions = g.expression_references.iter().map(|k| a.grouping_expressions[*k as usize].clone()).collect();
                    g.expression_references.clear();
                }
                a.grouping_expressions.clear();
                moved = true;
            }
        }
        if !moved {
            return case.fail("model", "no aggregate in the plan", "");
        }
        let text = d.text(&Opts::default());
        case.state(&text);
        if formats_to(case, &plan, &text, &Opts::default(), reg) {
            case.outcome("same groupings");
        }
    });
}
