//! C02: expressions round-trip at every position.

use crate::common::round_trip;
use crate::engine::{Ctx, Radix};
use crate::ext::registry;
use crate::model::*;
use crate::pools::*;

pub fn run(ctx: &Ctx) {
    crate::words::expressions(ctx);
    crate::words::everywhere(ctx);
    let reg = registry();
    let a = atoms();
    let mut lits: Vec<Ex> = few_lits().into_iter().map(Ex::Lit).collect();
    lits.extend(a.clone());
    let d1 = wrap_exprs(&lits, &a);
    // Depth 2 wraps a representative of every depth-1 form.
    let stride = ctx.pick(5, 1);
    let d1_some: Vec<Ex> = d1.iter().step_by(stride).cloned().collect();
    let small: Vec<Ex> = d1.iter().step_by(17).cloned().collect();
    let d2 = wrap_exprs(&d1_some, &small);
    let d2_some: Vec<Ex> = d2.iter().step_by(ctx.pick(1009, 101)).cloned().collect();
    let d3 = wrap_exprs(&d2_some, &a);

    let each = |name: &str, pool: &[Ex]| {
        let p = POSITIONS.len();
        ctx.space(name, (pool.len() * p) as u64, |i, case| {
            let mut r = Radix(i);
            let pos = r.take(p);
            if let Some(d) = place(&pool[r.0 as usize], pos) {
                round_trip(case, &d, &reg);
            } else {
                case.outcome("not a form of this position");
            }
        });
    };
    each("atom-at-every-position", &lits);
    each("depth1-at-every-position", &d1);
    each("depth3-at-every-position", &d3);
    // Depth 2 at every position in the thorough tier, spread over positions in
    // the quick one.
    if ctx.quick() {
        ctx.space("depth2-rotating-position", d2.len() as u64, |i, case| {
            for pos in [i as usize % POSITIONS.len(), (i as usize * 5 + 3) % POSITIONS.len()] {
                if let Some(d) = place(&d2[i as usize], pos) {
                    round_trip(case, &d, &reg);
                }
            }
        });
    } else {
        each("depth2-at-every-position", &d2);
    }

    // Argument lists of every length, and every order of three distinct ones.
    let max = ctx.pick(40, 200);
    ctx.space("argument-count", (max + 1) * FNS.len() as u64, |i, case| {
        let mut r = Radix(i);
        let n = r.take(max as usize + 1);
        let f = *r.pick(&FNS);
        let args: Vec<Ex> = (0..n).map(|k| if k % 3 == 2 { int(k as i64) } else { Ex::Ref(k as i32) }).collect();
        for pos in [0, 7, 10] {
            if let Some(d) = place(&Ex::Call(f, args.clone(), simple("i64")), pos) {
                round_trip(case, &d, &reg);
            }
        }
    });
    crate::sweeps::run(ctx, crate::sweeps::EXPRESSIONS, ctx.pick(300, 1100), ctx.pick(1025, 16_385), &reg);
    // All argument triples over the atoms, per function-name shape.
    let n = a.len();
    ctx.space("argument-triples", (n * n * n) as u64, |i, case| {
        let mut r = Radix(i);
        let args = vec![r.pick(&a).clone(), r.pick(&a).clone(), r.pick(&a).clone()];
        let f = FNS[i as usize % FNS.len()];
        let d = place(&Ex::Call(f, args, simple("i64").nullable()), 0).unwrap();
        round_trip(case, &d, &reg);
    });
    // If/then chains: number of clauses and which branch holds the nested one.
    let nest = [
        Ex::If(vec![(Ex::Ref(0), int(1))], Box::new(int(2))),
        Ex::Cast(Box::new(Ex::Ref(3)), 1, simple("i8")),
        Ex::Call(6, vec![Ex::Ref(1)], simple("boolean")),
        Ex::Ref(2),
    ];
    let m = nest.len() as u64;
    ctx.space("if-chains", (1..=3u32).map(|c| m.pow(2 * c + 1)).sum(), |mut i, case| {
        let mut c = 1;
        while i >= m.pow(2 * c + 1) {
            i -= m.pow(2 * c + 1);
            c += 1;
        }
        let mut r = Radix(i);
        let cl = (0..c).map(|_| (r.pick(&nest).clone(), r.pick(&nest).clone())).collect();
        let e = Ex::If(cl, Box::new(r.pick(&nest).clone()));
        for pos in [0, 1, 5, 10] {
            round_trip(case, &place(&e, pos).unwrap(), &reg);
        }
    });
    // Deep nesting of every form, and all words of forms up to a length.
    let deep = |word: &[usize]| {
        let mut e = Ex::Ref(1);
        for w in word {
            e = match w {
                0 => Ex::Call(1, vec![e, int(1)], simple("i64")),
                1 => Ex::Cast(Box::new(e), 2, simple("i32").nullable()),
                2 => Ex::If(vec![(e, int(1))], Box::new(Ex::Ref(0))),
                3 => Ex::If(vec![(Ex::Ref(0), int(1))], Box::new(e)),
                4 => Ex::Call(4, vec![Ex::Ref(0), e], udt(2, vec![])),
                _ => Ex::If(vec![(Ex::Ref(0), e)], Box::new(Ex::Ref(0))),
            };
        }
        e
    };
    let len = ctx.pick(5u32, 6);
    ctx.space("nesting-words", crate::engine::seq_count(6, len), |i, case| {
        let e = deep(&crate::engine::seq_decode(i, 6));
        for pos in [0, 5, 9] {
            if let Some(d) = place(&e, pos) {
                round_trip(case, &d, &reg);
            }
        }
    });
    ctx.space("deep-nesting", 6 * 40, |i, case| {
        let mut r = Radix(i);
        let f = r.take(6);
        let n = r.take(40) + 1;
        let e = deep(&vec![f; n]);
        for pos in [0, 10] {
            if let Some(d) = place(&e, pos) {
                round_trip(case, &d, &reg);
            }
        }
    });
    // Field references of every magnitude.
    let mut refs: Vec<i32> = (0..300).collect();
    refs.extend((8..31).flat_map(|b| [(1i32 << b) - 1, 1 << b, (1 << b) + 1]));
    refs.push(i32::MAX);
    ctx.space("field-references", refs.len() as u64, |i, case| {
        for pos in [0, 3, 5, 7, 10] {
            round_trip(case, &place(&Ex::Ref(refs[i as usize]), pos).unwrap(), &reg);
        }
    });
    ctx.assume("negative field references and if/then without clauses are outside the text format");
}
