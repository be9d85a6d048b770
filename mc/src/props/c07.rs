//! C07: output mappings and column widths are tracked exactly.
use crate::common::{format, formats_to, options, parses_to, rejected, round_trip};
use crate::engine::{Case, Ctx, Radix};
use crate::ext::registry;
use crate::model::*;
use crate::pools::*;
use substrait_explain::extensions::ExtensionRegistry;

fn cnt() -> (u32, Vec<Ex>, Ty) {
    (3, vec![], simple("i64"))
}

fn call() -> Ex {
    Ex::Call(1, vec![Ex::Ref(0)], simple("i64"))
}

fn pass(kids: usize, w: usize) -> Pay {
    // Handler 3 passes its inputs' columns through.
    let _ = kids;
    Pay { id: 3, args: Args { pos: vec![], named: vec![], cols: (0..w).map(|i| Col::Ex(Ex::Ref(i as i32))).collect() } }
}

fn given(w: usize) -> Pay {
    Pay { id: 0, args: Args { pos: vec![Arg::Int(1)], named: vec![], cols: (0..w).map(|i| if i % 2 == 0 { Col::Named(format!("o{i}"), simple("i64")) } else { Col::Ex(Ex::Ref(i as i32)) }).collect() } }
}

pub const KINDS: usize = 31;

/// An operator over inputs of the given widths. The kind decides how many
/// inputs it has.
pub fn arity(k: usize) -> usize {
    match k {
        0..=11 | 12 => 2,
        13 => 2,
        14 => 3,
        15..=23 => 1,
        24..=26 => 0,
        27 => 0,
        28 | 29 => 1,
        _ => 2,
    }
}

pub fn node(k: usize, kids: Vec<Rel>) -> Option<Rel> {
    assert_eq!(kids.len(), arity(k));
    let w: usize = kids.iter().map(width).sum();
    Some(match k {
        0..=11 => rel(Op::Join(k, lit(V::Bool(true)), if k % 2 == 0 { None } else { Some(Ex::Ref(0)) }), kids),
        12 => rel(Op::Cross, kids),
        13 | 14 => {
            if kids.iter().any(|r| width(r) != width(&kids[0])) {
                return None;
            }
            rel(Op::Set(if k == 13 { 6 } else { 0 }), kids)
        }
        15 => rel(Op::Filter(Ex::Ref(0)), kids),
        16 => rel(Op::Sort(vec![(Ex::Ref(0), 0)]), kids),
        17 => rel(Op::Fetch(Some(int(1)), None), kids),
        18 => rel(Op::Project(vec![]), kids),
        19 => rel(Op::Project(vec![call()]), kids),
        20 => rel(Op::Project(vec![int(4), call()]), kids),
        21 => rel(Op::Agg(vec![Ex::Ref(0)], vec![vec![0]], vec![]), kids),
        22 => rel(Op::Agg(vec![], vec![vec![]], vec![cnt()]), kids),
        23 => rel(Op::Agg(vec![Ex::Ref(0), call()], vec![vec![0, 1], vec![1]], vec![cnt(), (11, vec![Ex::Ref(0)], simple("i64"))]), kids),
        24 => read(2),
        25 => rel(Op::Virtual { rows: vec![vec![int(1), int(2), int(3)]], filter: None, cols: cols(3) }, vec![]),
        26 => rel(Op::ReadExt(cols(1), given(0)), vec![]),
        27 => rel(Op::ExtLeaf(given(3)), kids),
        28 => rel(Op::ExtSingle(given(2)), kids),
        29 => rel(Op::ExtSingle(pass(1, w)), kids),
        _ => rel(Op::ExtMulti(pass(2, w)), kids),
    })
}

/// Whether the text of this mapping determines it: every expression and
/// measure once, in order; and whether the relation has a mapping at all.
pub fn determined(r: &Rel, m: &[i32]) -> bool {
    let keep = |from: i32, n: i32| m.iter().filter(|i| **i >= from).copied().collect::<Vec<_>>() == (from..from + n).collect::<Vec<_>>();
    match &r.op {
        Op::Project(e) => keep(direct_width(r) as i32 - e.len() as i32, e.len() as i32),
        Op::Agg(g, _, ms) => keep(g.len() as i32, ms.len() as i32),
        Op::Virtual { .. } | Op::ReadExt(..) | Op::ExtLeaf(_) | Op::ExtSingle(_) | Op::ExtMulti(_) => false,
        _ => true,
    }
}

/// Put the mapping on the relation; the identity is the same as none except on
/// a read of a table, which keeps what is written.
pub fn mapped(r: &Rel, m: &[i32]) -> Option<Rel> {
    if !determined(r, m) {
        return None;
    }
    let mut r = r.clone();
    let id: Vec<i32> = (0..direct_width(&r) as i32).collect();
    if m != id || matches!(r.op, Op::Read(..)) {
        r.emit = Some(m.to_vec());
    }
    Some(r)
}

/// The relation's width as its parents see it: a filter above whose columns are
/// exactly 0..w has no mapping; with any other list it has one.
fn exposes_width(case: &mut Case, r: &Rel, reg: &ExtensionRegistry) {
    let w = width(r);
    for n in [w, w + 1, w.saturating_sub(1)] {
        let mut f = rel(Op::Filter(lit(V::Bool(true))), vec![r.clone()]);
        if n != w {
            f.emit = Some((0..n as i32).collect());
        }
        let d = doc1(f);
        if n <= w {
            round_trip(case, &d, reg);
        } else {
            // Refers past the input: parsing keeps the mapping as written.
            let text = d.text(&Opts::default()).replace("!{Emitted}", &format!("${w}"));
            case.state(&text);
            parses_to(case, &text, &d.proto(), reg);
        }
    }
}

pub fn run(ctx: &Ctx) {
    let reg = registry();
    let max_len = ctx.pick(4, 5);

    // Every mapping of every operator over every input width.
    let widths = 4u64;
    let combos: Vec<(usize, Vec<usize>)> = (0..KINDS)
        .flat_map(|k| {
            (0..widths.pow(arity(k) as u32)).map(move |i| {
                let mut r = Radix(i);
                (k, (0..arity(k)).map(|_| r.take(widths as usize)).collect())
            })
        })
        .collect();
    let maps: Vec<Vec<Vec<i32>>> = (0..10)
        .map(|w| {
            let mut m = all_mappings(w, if w > 4 { 3 } else { max_len });
            // The identity and its neighbours at every width.
            let id: Vec<i32> = (0..w as i32).collect();
            for x in [id.clone(), id.iter().rev().copied().collect(), id.iter().copied().chain([0]).collect(), id.iter().skip(1).copied().collect(), id.iter().copied().take(w.saturating_sub(1)).collect()] {
                if (w > 0 || x.is_empty()) && !m.contains(&x) {
                    m.push(x);
                }
            }
            for k in 1..w {
                let mut x = id.clone();
                x.swap(k - 1, k);
                if !m.contains(&x) {
                    m.push(x);
                }
            }
            m
        })
        .collect();
    ctx.space("operator-widths-mappings", combos.len() as u64, |i, case| {
        let (k, ws) = &combos[i as usize];
        let Some(r) = node(*k, ws.iter().map(|w| read(*w)).collect()) else { return };
        exposes_width(case, &r, &reg);
        for m in &maps[direct_width(&r).min(9)] {
            let Some(x) = mapped(&r, m) else { continue };
            round_trip(case, &doc1(x.clone()), &reg);
            exposes_width(case, &x, &reg);
        }
    });
    // Operators over operators, each possibly with a mapping: widths compose.
    let mut pool: Vec<Rel> = vec![];
    for (k, ws) in &combos {
        if ws.iter().any(|w| *w == 0 || (*w == 3 && arity(*k) > 1)) {
            continue;
        }
        let Some(r) = node(*k, ws.iter().map(|w| read(*w)).collect()) else { continue };
        let dw = direct_width(&r);
        pool.push(r.clone());
        for m in [vec![], vec![0], (0..dw as i32).rev().collect::<Vec<_>>(), (0..dw as i32).chain([0]).collect(), (0..dw as i32).chain(0..dw.min(1) as i32).rev().collect()] {
            if dw > 0 || m.is_empty() {
                pool.extend(mapped(&r, &m).filter(|x| x.emit.is_some()));
            }
        }
    }
    let one: Vec<usize> = (0..KINDS).filter(|k| arity(*k) == 1).collect();
    let two: Vec<usize> = (0..KINDS).filter(|k| arity(*k) == 2).collect();
    ctx.space("unary-over-operator", (pool.len() * one.len()) as u64, |i, case| {
        let mut r = Radix(i);
        let k = *r.pick(&one);
        let Some(x) = node(k, vec![r.pick(&pool).clone()]) else { return };
        round_trip(case, &doc1(x.clone()), &reg);
        exposes_width(case, &x, &reg);
        let dw = direct_width(&x) as i32;
        for m in [(0..dw).rev().collect::<Vec<_>>(), (0..dw).collect(), (0..dw).chain(0..dw.min(1)).collect()] {
            if let Some(y) = mapped(&x, &m) {
                round_trip(case, &doc1(y.clone()), &reg);
                exposes_width(case, &y, &reg);
            }
        }
    });
    let step = ctx.pick(5, 1);
    let left: Vec<Rel> = pool.iter().step_by(step).cloned().collect();
    let right: Vec<Rel> = pool.iter().skip(step / 2).step_by(step * ctx.pick(2, 1)).cloned().collect();
    ctx.space("binary-over-operators", (left.len() * right.len() * two.len()) as u64, |i, case| {
        let mut r = Radix(i);
        let k = *r.pick(&two);
        let (a, b) = (r.pick(&left).clone(), r.pick(&right).clone());
        let Some(x) = node(k, vec![a, b]) else { return };
        round_trip(case, &doc1(x.clone()), &reg);
        // One parent up, the identity list must still be recognised.
        round_trip(case, &doc1(rel(Op::Sort(vec![]), vec![x.clone()])), &reg);
        let w = width(&x) as i32;
        let mut f = rel(Op::Fetch(None, Some(int(2))), vec![x]);
        f.emit = Some((0..w).chain(0..w.min(1)).rev().collect::<Vec<_>>()).filter(|m| *m != (0..w).collect::<Vec<_>>());
        round_trip(case, &doc1(f), &reg);
    });
    // Three levels of single-input operators with mappings at the top and bottom.
    ctx.space("chains-of-three", (pool.len() * one.len() * one.len()) as u64, |i, case| {
        let mut r = Radix(i);
        let (a, b) = (*r.pick(&one), *r.pick(&one));
        let leafish = r.pick(&pool).clone();
        let Some(x) = node(a, vec![leafish]) else { return };
        let dw = direct_width(&x) as i32;
        let x = if dw > 1 { mapped(&x, &(0..dw).rev().collect::<Vec<_>>()).unwrap_or(x) } else { x };
        let Some(y) = node(b, vec![x]) else { return };
        round_trip(case, &doc1(y), &reg);
    });
    // Sets whose inputs disagree in width are refused.
    ctx.space("unequal-sets", 4 * 4 * 4 * 8, |i, case| {
        let mut r = Radix(i);
        let (a, b, c, k) = (r.take(4), r.take(4), r.take(4), r.take(8));
        let x = rel(Op::Set(k), vec![read(a), read(b), read(c)]);
        if a == b && b == c {
            round_trip(case, &doc1(x), &reg);
        } else {
            let t = doc1(x).text(&Opts::default());
            rejected(case, &t, "the inputs of a set have different widths", &reg);
            // Also below another operator, and when a mapping causes it.
            let mut y = read(a);
            y.emit = Some((0..b as i32).filter(|v| (*v as usize) < a).collect());
            let z = rel(Op::Set(k), vec![read(width(&y) + 1), y]);
            let t = doc1(rel(Op::Filter(Ex::Ref(0)), vec![z])).text(&Opts::default());
            rejected(case, &t, "a mapping narrows one input of the set", &reg);
        }
    });
    // One input among many that differs.
    let most = ctx.pick(12, 40);
    ctx.space("one-unequal-input", (most * most * 4 * 2 * 2) as u64, |i, case| {
        let mut r = Radix(i);
        let (n, at, w, up, under) = (r.take(most) + 2, r.take(most), r.take(4), r.take(2) == 1, r.take(2) == 1);
        if at > n || w == 0 && !up && at < n {
            return;
        }
        let mut kids = vec![read(w); n];
        if let Some(k) = kids.get_mut(at) {
            *k = read(if up { w + 1 } else { w - 1 });
        }
        let x = rel(Op::Set(7), kids);
        let d = doc1(if under { rel(Op::Filter(lit(V::Bool(true))), vec![x]) } else { x });
        if at == n {
            round_trip(case, &d, &reg);
        } else {
            rejected(case, &d.text(&Opts::default()), "one input of the set has another width", &reg);
        }
    });
    // Projected references: every list over a small range, with expressions
    // anywhere among them. A reference past the input is never silently taken
    // for an expression.
    let alphabet = ["$0", "$1", "$2", "$3", "1", "add:i64_i64($0):i64"];
    let n = alphabet.len() as u64;
    let len = ctx.pick(4, 5);
    let pre = env().text("  ");
    ctx.space("projection-lists", crate::engine::seq_count(n, len) * 3, |i, case| {
        let mut r = Radix(i);
        let w = r.take(3);
        let word = crate::engine::seq_decode(r.0, n);
        let mut es = vec![];
        let mut m = vec![];
        let ne = word.iter().filter(|k| **k >= 4).count();
        let mut lands = false;
        for k in &word {
            if *k < 4 {
                lands |= *k >= w && *k < w + ne;
                m.push(*k as i32);
            } else {
                m.push((w + es.len()) as i32);
                es.push([int(1), call()][*k - 4].clone());
            }
        }
        let list = word.iter().map(|k| alphabet[*k]).collect::<Vec<_>>().join(", ");
        let text = format!("{pre}=== Plan\nProject[{list}]\n  {}", doc1(read(w)).text(&Opts::default()).split_once("=== Plan\n").unwrap().1);
        if lands {
            rejected(case, &text, "a reference past the input would mean a computed expression", &reg);
            return;
        }
        let mut x = rel(Op::Project(es), vec![read(w)]);
        if m != (0..direct_width(&x) as i32).collect::<Vec<_>>() {
            x.emit = Some(m);
        }
        case.state(&text);
        parses_to(case, &text, &doc1(x).proto(), &reg);
    });
    // The other operators keep any written list.
    let ops: Vec<(&str, Op, usize)> = vec![
        ("Filter[true", Op::Filter(lit(V::Bool(true))), 1),
        ("Sort[($0, &AscNullsFirst)", Op::Sort(vec![(Ex::Ref(0), 0)]), 1),
        ("Fetch[limit=1", Op::Fetch(Some(int(1)), None), 1),
        ("Join[&Inner, true", Op::Join(0, lit(V::Bool(true)), None), 2),
        ("Join[&LeftSemi, true", Op::Join(4, lit(V::Bool(true)), None), 2),
        ("Join[&RightMark, true", Op::Join(11, lit(V::Bool(true)), None), 2),
        ("Set[&UnionAll", Op::Set(7), 2),
    ];
    ctx.space("written-lists", crate::engine::seq_count(5, len) * ops.len() as u64 * 3, |i, case| {
        let mut r = Radix(i);
        let (head, op, kids) = r.pick(&ops).clone();
        let w = r.take(3);
        let m: Vec<i32> = crate::engine::seq_decode(r.0, 5).into_iter().map(|k| k as i32).collect();
        let list = m.iter().map(|k| format!("${k}")).collect::<Vec<_>>().join(", ");
        let kid = doc1(read(w)).text(&Opts::default());
        let kid = kid.split_once("=== Plan\n").unwrap().1;
        let text = format!("{pre}=== Plan\n{head} => {list}]\n{}", format!("  {kid}").repeat(kids));
        let mut x = rel(op, vec![read(w); kids]);
        if m != (0..direct_width(&x) as i32).collect::<Vec<_>>() {
            x.emit = Some(m.clone());
        }
        case.state(&text);
        parses_to(case, &text, &doc1(x.clone()).proto(), &reg);
        // And formatting shows every column of it, flagging the ones that do not exist.
        let bad = m.iter().filter(|k| **k as usize >= direct_width(&x)).count();
        let want = doc1(x.clone()).text(&Opts::default());
        if bad == 0 {
            formats_to(case, &doc1(x).proto(), &want, &Opts::default(), &reg);
        } else if let Some((t, errs)) = format(case, &doc1(x).proto(), &options(&Opts::default()), &reg, &want) {
            case.trace();
            if t != want || errs.len() != bad {
                case.fail("bad-column", &format!("{bad} columns do not exist; formatted as:\n{t}\nerrors: {errs:?}"), &want);
            }
        }
    });
    // Writing an explicit identity mapping is writing none, for any operator.
    ctx.space("explicit-identity", combos.len() as u64, |i, case| {
        let (k, ws) = &combos[i as usize];
        let Some(mut r) = node(*k, ws.iter().map(|w| read(*w)).collect()) else { return };
        if matches!(r.op, Op::Read(..) | Op::ExtLeaf(_) | Op::ExtSingle(_) | Op::ExtMulti(_)) {
            return;
        }
        let plain = doc1(r.clone());
        let text = plain.text(&Opts::default());
        r.emit = Some((0..direct_width(&r) as i32).collect());
        case.state(&text);
        if formats_to(case, &doc1(r.clone()).proto(), &text, &Opts::default(), &reg) {
            parses_to(case, &text, &plain.proto(), &reg);
        }
        // The parent sees the same width either way.
        let up = rel(Op::Filter(Ex::Ref(0)), vec![r]);
        let text = doc1(rel(Op::Filter(Ex::Ref(0)), vec![node(*k, ws.iter().map(|w| read(*w)).collect()).unwrap()])).text(&Opts::default());
        formats_to(case, &doc1(up).proto(), &text, &Opts::default(), &reg);
    });
    // Mappings that are the identity but for one entry, at every size that a
    // narrower integer or a capacity could confuse.
    let sizes = crate::sweeps::sizes(ctx.pick(20, 70), ctx.pick(1025, 4097));
    let ns = sizes.len();
    ctx.space("near-identity", (ns * 10 * 8 * 4) as u64, |i, case| {
        let mut r = Radix(i);
        let w = *r.pick(&sizes);
        let at = match r.take(10) {
            k @ 0..=2 => k,
            3 => w / 2,
            4 => 127,
            5 => 128,
            6 => 255,
            7 => 256,
            8 => w.wrapping_sub(2),
            _ => w.wrapping_sub(1),
        };
        let to = match r.take(8) {
            0 => 0,
            1 => at.wrapping_sub(1),
            2 => at.wrapping_add(1),
            3 => at.wrapping_sub(128),
            4 => at.wrapping_sub(256),
            5 => at ^ 1,
            6 => w.wrapping_sub(1),
            _ => w.wrapping_sub(1).wrapping_sub(at),
        };
        let op = r.take(4);
        if w == 0 || at >= w || to >= w {
            return;
        }
        let mut x = match op {
            0 => rel(Op::Filter(lit(V::Bool(true))), vec![read(w)]),
            1 => rel(Op::Cross, vec![read(w / 2), read(w - w / 2)]),
            2 => read(w),
            // One expression after w - 1 references.
            _ => {
                if at == w - 1 || to == w - 1 {
                    return;
                }
                rel(Op::Project(vec![int(1)]), vec![read(w - 1)])
            }
        };
        let mut m: Vec<i32> = (0..w as i32).collect();
        m[at] = to as i32;
        x.emit = (to != at).then_some(m);
        if to == at && op == 2 {
            return;
        }
        round_trip(case, &doc1(x), &reg);
    });
    // Many computed expressions, among references and alone.
    ctx.space("many-expressions", (ns * 4 * 3) as u64, |i, case| {
        let mut r = Radix(i);
        let (n, w, shape) = (*r.pick(&sizes), r.take(4), r.take(3));
        let es: Vec<Ex> = (0..n).map(|i| int(i as i64)).collect();
        let mut x = rel(Op::Project(es), vec![read(w)]);
        x.emit = match shape {
            0 => None,
            1 => Some((w as i32..(w + n) as i32).collect()),
            _ => Some((w as i32..(w + n) as i32).chain(0..w as i32).collect()),
        };
        if w == 0 {
            x.emit = None;
        }
        if n == 0 && shape > 0 || x.emit.as_ref().is_some_and(|m| m.len() == direct_width(&x) && m.iter().enumerate().all(|(i, v)| *v == i as i32)) {
            return;
        }
        let up = rel(Op::Filter(Ex::Ref(0)), vec![x.clone()]);
        round_trip(case, &doc1(x), &reg);
        round_trip(case, &doc1(up), &reg);
        // Groupings and measures.
        let calls: Vec<(u32, Vec<Ex>, Ty)> = (0..n).map(|i| (1, vec![int(i as i64)], simple("i64"))).collect();
        let a = match shape {
            0 => Op::Agg((0..n).map(|i| Ex::Ref(i as i32)).collect(), vec![(0..n).collect()], vec![]),
            1 => Op::Agg(vec![], vec![vec![]], calls),
            _ => Op::Agg((0..w).map(|i| Ex::Ref(i as i32)).collect(), vec![(0..w).collect()], calls),
        };
        if n > 0 {
            let a = rel(a, vec![read(w)]);
            let mut m: Vec<i32> = (0..direct_width(&a) as i32).collect();
            round_trip(case, &doc1(rel(Op::Filter(Ex::Ref(0)), vec![a.clone()])), &reg);
            m.rotate_right(1);
            if m.len() > 1 && shape == 0 {
                let mut b = a;
                b.emit = Some(m);
                round_trip(case, &doc1(rel(Op::Filter(Ex::Ref(0)), vec![b])), &reg);
            }
        }
    });
    // Every permutation of four and five columns, and regular mappings of more.
    let mut perms: Vec<Vec<i32>> = vec![vec![]];
    let mut regular: Vec<(usize, Vec<i32>)> = vec![];
    for n in 0..5 {
        perms = perms.iter().flat_map(|p| (0..=n as usize).map(move |at| { let mut p = p.clone(); p.insert(at, n); p })).collect();
        if n > 2 {
            regular.extend(perms.iter().map(|p| (n as usize + 1, p.clone())));
        }
    }
    for w in (6..ctx.pick(20, 60)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        let id: Vec<i32> = (0..w as i32).collect();
        let turned = |k: usize| { let mut x = id.clone(); x.rotate_left(k); x };
        let rev = |from: usize, to: usize| { let mut x = id.clone(); x[from..to].reverse(); x };
        let without = |k: usize| { let mut x = id.clone(); x.remove(k); x };
        let twice = |k: usize| { let mut x = id.clone(); x.insert(k, k as i32); x };
        let last = w as i32 - 1;
        regular.extend(
            [
                rev(0, w), turned(1), turned(w - 1), turned(w / 2), rev(0, 2), rev(w - 2, w), rev(0, w - 1), rev(1, w), without(0), without(w / 2), without(w - 1),
                twice(0), twice(w / 2), twice(w - 1), vec![0; w], vec![last; w], vec![last], vec![last, 0], id[..w / 2].to_vec(), id[w / 2..].to_vec(),
                id.iter().filter(|i| **i % 2 == 0).chain(id.iter().filter(|i| **i % 2 == 1)).copied().collect(), id.iter().flat_map(|i| [*i, *i]).collect(),
                id.iter().chain(&id).copied().collect(), id.iter().map(|i| (i * 7) % w as i32).collect(), id.iter().map(|i| i / 2).collect(), vec![],
            ]
            .into_iter()
            .map(|m| (w, m)),
        );
    }
    ctx.space("wider-mappings", (regular.len() * KINDS) as u64, |i, case| {
        let mut r = Radix(i);
        let k = r.take(KINDS);
        let (w, m) = r.pick(&regular);
        let kids: Vec<Rel> = match arity(k) {
            0 => vec![],
            1 => vec![read(*w)],
            // Joins of the kinds that keep one side see both widths.
            2 => vec![read(w / 2), read(w - w / 2)],
            _ => vec![read(*w), read(*w), read(*w)],
        };
        let kids = if k == 13 { vec![read(*w), read(*w)] } else { kids };
        let x = if k == 24 { Some(read(*w)) } else { node(k, kids) };
        let Some(x) = x else { return };
        if m.iter().any(|v| *v as usize >= direct_width(&x)) {
            return;
        }
        let Some(x) = mapped(&x, m) else { return };
        round_trip(case, &doc1(x.clone()), &reg);
        exposes_width(case, &x, &reg);
    });
    // Rows of other widths than the columns: the columns decide.
    ctx.space("ragged-rows", 5 * 5 * 5 * 5, |i, case| {
        let mut r = Radix(i);
        let (n, a, b, c) = (r.take(5), r.take(5), r.take(5), r.take(5));
        let rows = (0..n).map(|k| (0..if k == 0 { a } else { b }).map(|x| int(x as i64)).collect()).collect();
        let v = rel(Op::Virtual { rows, filter: None, cols: cols(c) }, vec![]);
        let d = doc1(v.clone());
        if round_trip(case, &d, &reg) {
            exposes_width(case, &v, &reg);
        }
    });
    // Very wide relations.
    ctx.space("wide", ctx.pick(300, 1200), |i, case| {
        let w = i as usize;
        let x = rel(Op::Cross, vec![read(w), read(w / 2)]);
        round_trip(case, &doc1(rel(Op::Filter(Ex::Ref(0)), vec![x.clone()])), &reg);
        let mut y = x;
        let n = direct_width(&y) as i32;
        y.emit = Some((0..n).rev().collect());
        if n > 1 {
            round_trip(case, &doc1(rel(Op::Sort(vec![]), vec![y])), &reg);
        }
    });
    ctx.assume("for projections and aggregates the text determines the mapping only when every expression and measure occurs once and in order; virtual and extension reads and extension relations have no mapping in text");
}
