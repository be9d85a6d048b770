//! Sweeps over the size of everything that repeats or nests: one family of
//! documents per construct, at every size up to a bound.

use substrait_explain::extensions::ExtensionRegistry;

use crate::common::round_trip;
use crate::engine::{Ctx, Radix};
use crate::ext::ARG_NAMES;
use crate::model::*;
use crate::pools::*;

/// Every size up to a bound, then the sizes around larger powers of two and
/// of ten.
pub fn sizes(all: usize, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    for b in [16, 32, 48, 64, 80, 96, 100, 128, 160, 192, 200, 256, 300, 400, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 16_384, 32_768, 65_536, 100_000] {
        v.extend([b - 1, b, b + 1]);
    }
    v.retain(|n| *n <= top);
    v.sort();
    v.dedup();
    v
}

pub type Family = (&'static str, fn(usize) -> Option<Doc>);

/// Something that tells every element from its neighbours.
fn val(k: usize) -> Ex {
    match k % 5 {
        0 => int(k as i64),
        1 => Ex::Call(1, vec![Ex::Ref((k % 3) as i32), int(k as i64)], simple("i64")),
        2 => lit(V::Str(format!("s{k}"))),
        3 => Ex::Lit(Lit { v: V::I32(k as i32), null: true }),
        _ => Ex::Cast(Box::new(int(k as i64)), (k % 3) as i32, simple("i8")),
    }
}

fn args(pos: Vec<Arg>, named: Vec<(String, Arg)>, cols: Vec<Col>) -> Args {
    Args { pos, named, cols }
}

fn arg(k: usize) -> Arg {
    match k % 6 {
        0 => Arg::Int(k as i64),
        1 => Arg::Str(format!("s{k}")),
        2 => Arg::Bool(k % 4 == 0),
        3 => Arg::Float(k as f64 + 0.5),
        4 => Arg::Enum(format!("E{k}")),
        _ => Arg::Tuple(vec![Arg::Int(k as i64), Arg::Null]),
    }
}

fn leaf(a: Args) -> Doc {
    doc1(rel(Op::ExtLeaf(Pay { id: 0, args: a }), vec![]))
}

fn enhanced(a: Args) -> Doc {
    let mut r = read(2);
    r.enh = Some(Pay { id: 1, args: a.clone() });
    r.opts = vec![Pay { id: 0, args: a }];
    doc1(rel(Op::Filter(Ex::Ref(1)), vec![r]))
}

fn virt(rows: Vec<Vec<Ex>>, filter: Option<Ex>, w: usize) -> Op {
    Op::Virtual { rows, filter, cols: cols(w) }
}

pub const RELATIONS: &[Family] = &[
    ("read-columns", |n| Some(doc1(read(n)))),
    ("table-parts", |n| {
        (n > 0).then(|| doc1(rel(Op::Read((0..n).map(|k| format!("p{k}")).collect(), cols(1)), vec![])))
    }),
    ("root-names", |n| Some(doc(vec![Top::Root((0..n).map(|k| format!("r{k}")).collect(), read(n))]))),
    ("projected", |n| Some(doc1(rel(Op::Project((0..n).map(val).collect()), vec![read(2)])))),
    ("passed-and-projected", |n| Some(doc1(rel(Op::Project(vec![val(1), val(3)]), vec![read(n)])))),
    ("sort-keys", |n| {
        let keys = (0..n).map(|k| (val(k), k % DIRS.len())).collect();
        Some(doc1(rel(Op::Sort(keys), vec![read(2)])))
    }),
    ("groupings", |n| {
        (n > 0).then(|| {
            let g: Vec<Ex> = (0..n).map(val).collect();
            doc1(rel(Op::Agg(g, vec![(0..n).collect()], vec![(3, vec![], simple("i64"))]), vec![read(2)]))
        })
    }),
    ("grouping-sets", |n| {
        (n > 0).then(|| {
            let g: Vec<Ex> = (0..n).map(val).collect();
            let mut sets: Vec<Vec<usize>> = (0..n).map(|k| vec![k]).collect();
            sets.push((0..n).collect());
            sets.push(vec![]);
            doc1(rel(Op::Agg(g, sets, vec![]), vec![read(2)]))
        })
    }),
    ("measures", |n| {
        let m = (0..n).map(|k| ([11, 12, 3][k % 3], vec![Ex::Ref(k as i32)], simple("i64"))).collect();
        Some(doc1(rel(Op::Agg(vec![Ex::Ref(0)], vec![vec![0]], m), vec![read(2)])))
    }),
    ("set-inputs", |n| {
        (n > 1).then(|| {
            let kids = (0..n)
                .map(|k| rel(Op::Read(vec![format!("t{k}")], cols(2)), vec![]))
                .collect();
            doc1(rel(Op::Set(n % 8), kids))
        })
    }),
    ("multi-inputs", |n| {
        let kids = (0..n)
            .map(|k| rel(Op::Read(vec![format!("t{k}")], cols(1)), vec![]))
            .collect();
        let a = args(vec![Arg::Int(n as i64)], vec![], vec![Col::Ex(Ex::Ref(0))]);
        Some(doc1(rel(Op::ExtMulti(Pay { id: 0, args: a }), kids)))
    }),
    ("top-level", |n| {
        Some(doc(
            (0..n)
                .map(|k| match k % 3 {
                    0 => Top::Rel(rel(Op::Read(vec![format!("t{k}")], cols(1)), vec![])),
                    1 => Top::Root(vec![format!("r{k}")], rel(Op::Filter(Ex::Ref(0)), vec![read(1)])),
                    _ => Top::Rel(rel(virt(vec![vec![val(k)]; k % 5], None, 1), vec![])),
                })
                .collect(),
        ))
    }),
    ("filters-deep", |n| {
        let mut r = read(2);
        for k in 0..n.min(200) {
            r = rel(Op::Filter(val(k)), vec![r]);
        }
        (n <= 200).then(|| doc1(r))
    }),
    ("crosses-deep", |n| {
        let mut r = read(1);
        for k in 0..n.min(100) {
            let other = rel(Op::Read(vec![format!("t{k}")], cols(1)), vec![]);
            r = rel(Op::Cross, if k % 2 == 0 { vec![r, other] } else { vec![other, r] });
        }
        (n <= 100).then(|| doc1(r))
    }),
    ("virtual-rows", |n| Some(doc1(rel(virt((0..n).map(|k| vec![val(k)]).collect(), None, 1), vec![])))),
    ("virtual-row-width", |n| {
        let rows = (0..2).map(|r| (0..n).map(|k| val(k + r)).collect()).collect();
        Some(doc1(rel(virt(rows, Some(Ex::Ref(0)), n), vec![])))
    }),
    ("join-width", |n| {
        Some(doc1(rel(Op::Join(n % 12, Ex::Ref(0), None), vec![read(n), read(2)])))
    }),
];

pub const EXPRESSIONS: &[Family] = &[
    ("call-arguments", |n| place(&Ex::Call(1, (0..n).map(val).collect(), simple("i64")), 0)),
    ("measure-arguments", |n| {
        let m = (11, (0..n).map(val).collect(), simple("i64"));
        Some(doc1(rel(Op::Agg(vec![], vec![vec![]], vec![m]), vec![read(2)])))
    }),
    ("if-clauses", |n| {
        if n == 0 {
            return None;
        }
        place(&Ex::If((0..n).map(|k| (val(k), val(k + 2))).collect(), Box::new(val(n))), 0)
    }),
    ("if-clauses-in-a-row", |n| {
        if n == 0 {
            return None;
        }
        place(&Ex::If((0..n).map(|k| (Ex::Ref(k as i32), int(k as i64))).collect(), Box::new(Ex::Ref(0))), 10)
    }),
    ("call-nested-left", |n| {
        if n > 60 {
            return None;
        }
        place(&(0..n).fold(Ex::Ref(0), |e, k| Ex::Call(1, vec![e, val(k)], simple("i64"))), 5)
    }),
    ("long-string", |n| place(&lit(V::Str("ab'\\\"é\n".chars().cycle().take(n).collect())), 0)),
    ("field-reference", |n| place(&Ex::Ref(n as i32), 0)),
    ("field-reference-argument", |n| place(&Ex::Call(4, vec![Ex::Ref(n as i32), int(n as i64)], simple("i8")), 10)),
];

pub const TYPES: &[Family] = &[
    ("parameters", |n| {
        let flat = flat_types();
        let ps: Vec<Ty> = (0..n).map(|k| flat[k * 7 % flat.len()].clone()).collect();
        Some(doc1(rel(Op::Read(vec!["t".into()], vec![("a".into(), udt(2, ps)), ("b".into(), simple("i64"))]), vec![])))
    }),
    ("columns-of-lists", |n| {
        let flat = flat_types();
        let c = (0..n).map(|k| (format!("c{k}"), list(flat[k * 11 % flat.len()].clone()).with_null(k % 3 == 0))).collect();
        Some(doc1(rel(Op::Read(vec!["t".into()], c), vec![])))
    }),
    ("list-depth", |n| {
        if n > 60 {
            return None;
        }
        let t = (0..n).fold(simple("string").nullable(), |t, k| list(t).with_null(k % 2 == 0));
        Some(doc1(rel(Op::Read(vec!["t".into()], vec![("a".into(), t)]), vec![])))
    }),
];

pub const NAMES: &[Family] = &[
    ("long-bare-names", |n| {
        (n > 0).then(|| {
            let s = "aZ9_".chars().cycle().take(n).collect::<String>();
            doc(vec![Top::Root(vec![s.clone()], rel(Op::Read(vec![s.clone(), s.clone()], vec![(s, simple("i64"))]), vec![]))])
        })
    }),
    ("long-quoted-names", |n| {
        let s = "a\"\\ é\n\t".chars().cycle().take(n).collect::<String>();
        Some(doc(vec![Top::Root(vec![s.clone()], rel(Op::Read(vec![s.clone(), s.clone()], vec![(s, simple("i64"))]), vec![]))]))
    }),
    ("long-string", |n| place(&lit(V::Str("ab'\\\"é\n".chars().cycle().take(n).collect())), 10)),
    ("long-argument", |n| {
        let s: String = "ab'\\\"é\n".chars().cycle().take(n).collect();
        Some(leaf(args(vec![Arg::Str(s.clone())], vec![("a b".into(), Arg::Str(s.clone()))], vec![Col::Named(s, simple("i64"))])))
    }),
];

pub const ARGUMENTS: &[Family] = &[
    ("positional", |n| Some(leaf(args((0..n).map(arg).collect(), vec![], vec![Col::Ex(Ex::Ref(0))])))),
    ("positional-with-named", |n| {
        let named = ARG_NAMES.iter().enumerate().map(|(k, a)| (a.to_string(), arg(k + n))).collect();
        Some(leaf(args((0..n).map(arg).collect(), named, vec![])))
    }),
    ("columns", |n| {
        let c = (0..n)
            .map(|k| if k % 3 == 2 { Col::Ex(Ex::Ref(k as i32)) } else { Col::Named(format!("c{k}"), few_types()[k % 5].clone()) })
            .collect();
        Some(leaf(args(vec![], vec![], c)))
    }),
    ("tuple-elements", |n| {
        // A tuple has elements; none is not one.
        (n > 0).then(|| enhanced(args(vec![Arg::Tuple((0..n).map(arg).collect())], vec![("a".into(), Arg::Tuple((0..n).map(|k| arg(k + 1)).collect()))], vec![])))
    }),
    ("tuple-depth", |n| {
        (n > 0 && n <= 40).then(|| {
            let t = (0..n).fold(Arg::Int(1), |t, k| Arg::Tuple(if k % 2 == 0 { vec![t] } else { vec![Arg::Bool(true), t] }));
            leaf(args(vec![t], vec![], vec![]))
        })
    }),
    ("expressions", |n| {
        // A bare literal is an argument value of its own kind.
        let e = |k: usize| Ex::Call(4, vec![val(k)], simple("i8"));
        Some(enhanced(args((0..n).map(|k| Arg::Ex(e(k))).collect(), vec![], vec![])))
    }),
];

pub const ADDENDA: &[Family] = &[
    ("optimizations", |n| {
        let mut r = read(2);
        r.opts = (0..n).map(|k| Pay { id: k % 2, args: args(vec![arg(k)], vec![], vec![]) }).collect();
        r.enh = (n % 2 == 0).then(|| Pay { id: 0, args: args(vec![Arg::Int(n as i64)], vec![], vec![]) });
        Some(doc1(rel(Op::Filter(Ex::Ref(0)), vec![r])))
    }),
    ("optimizations-above-inputs", |n| {
        let o: Vec<Pay> = (0..n).map(|k| Pay { id: k % 2, args: args(vec![arg(k)], vec![], vec![]) }).collect();
        let mut r = rel(Op::Cross, vec![read(1), read(2)]);
        r.opts = o.clone();
        let mut e = rel(Op::ReadExt(cols(2), Pay { id: 0, args: args(vec![], vec![], vec![]) }), vec![]);
        e.opts = o;
        Some(doc(vec![Top::Rel(r), Top::Rel(e)]))
    }),
    ("annotated-depth", |n| {
        let mut r = read(2);
        for k in 0..n.min(100) {
            r = rel(Op::Filter(val(k)), vec![r]);
            r.enh = (k % 2 == 0).then(|| Pay { id: 0, args: args(vec![arg(k)], vec![], vec![]) });
            r.opts = (0..k % 3).map(|j| Pay { id: j, args: args(vec![arg(k + j)], vec![], vec![]) }).collect();
        }
        (n <= 100).then(|| doc1(r))
    }),
    ("annotated-siblings", |n| {
        (n > 1).then(|| {
            let kids = (0..n)
                .map(|k| {
                    let mut r = rel(Op::Read(vec![format!("t{k}")], cols(1)), vec![]);
                    r.enh = (k % 2 == 0).then(|| Pay { id: 1, args: args(vec![arg(k)], vec![], vec![]) });
                    r.opts = (0..k % 3).map(|j| Pay { id: j, args: args(vec![arg(k + j)], vec![], vec![]) }).collect();
                    r
                })
                .collect();
            doc1(rel(Op::Set(0), kids))
        })
    }),
];

/// Declarations of every kind in the given number, all of them used.
pub const DECLARATIONS: &[Family] = &[
    ("functions", |n| {
        let mut d = doc1(read(1));
        d.env.fns = (0..n as u32).map(|k| (k, 1, format!("f{k}"))).collect();
        let calls = (0..n as u32).map(|k| Ex::Call(k, vec![], simple("i64"))).collect();
        d.tops = vec![Top::Rel(rel(Op::Project(calls), vec![read(1)]))];
        Some(d)
    }),
    ("overloads", |n| {
        let mut d = doc1(read(1));
        d.env.fns = (0..n as u32).map(|k| (k + 1, 1, format!("f:t{}", k / 2))).collect();
        let calls = (0..n as u32).map(|k| Ex::Call(k + 1, vec![], simple("i64"))).collect();
        d.tops = vec![Top::Rel(rel(Op::Project(calls), vec![read(1)]))];
        Some(d)
    }),
    ("types", |n| {
        let mut d = doc1(read(1));
        d.env.types = (0..n as u32).map(|k| (k, 1, format!("t{}", k / 2))).collect();
        let c = (0..n as u32).map(|k| (format!("c{k}"), udt(k, vec![]))).collect();
        d.tops = vec![Top::Rel(rel(Op::Read(vec!["t".into()], c), vec![]))];
        Some(d)
    }),
    ("variations", |n| {
        let mut d = doc1(read(1));
        d.env.vars = (0..n as u32).map(|k| (k, 2, format!("v{k}"))).collect();
        Some(d)
    }),
    ("urns", |n| {
        let mut d = doc1(read(1));
        d.env.urns = (0..n as u32).map(|k| (k, format!("urn:{k}"))).collect();
        d.env.fns = (0..n as u32).map(|k| (k, k, "f".to_string())).collect();
        d.env.types = (0..n as u32).map(|k| (k, n as u32 - 1 - k, "t".to_string())).collect();
        d.env.vars = vec![];
        let calls = (0..n as u32).map(|k| Ex::Call(k, vec![], udt(k, vec![]))).collect();
        d.tops = vec![Top::Rel(rel(Op::Project(calls), vec![read(1)]))];
        Some(d)
    }),
    ("long-names", |n| {
        (n > 0).then(|| {
            let s = "aZ9_".chars().cycle().take(n).collect::<String>();
            let mut d = doc1(read(1));
            d.env.urns = vec![(1, format!("urn:{s}"))];
            d.env.fns = vec![(1, 1, s.clone()), (2, 1, format!("{s}:i64"))];
            d.env.types = vec![(1, 1, s.clone())];
            d.env.vars = vec![(1, 1, s)];
            let calls = vec![Ex::Call(1, vec![], udt(1, vec![])), Ex::Call(2, vec![], simple("i64"))];
            d.tops = vec![Top::Rel(rel(Op::Project(calls), vec![read(1)]))];
            d
        })
    }),
    ("anchors", |n| {
        let n = n as u32;
        let mut d = doc1(read(1));
        d.env.urns = vec![(n, "urn:a".into()), (n + 1, "urn:b".into())];
        d.env.fns = vec![(n, n, "f".into()), (n + 1, n + 1, "f".into()), (n + 2, n, "g".into())];
        d.env.types = vec![(n, n, "t".into()), (n + 1, n + 1, "t".into())];
        d.env.vars = vec![(n, n + 1, "v".into())];
        let calls = (n..n + 3).map(|k| Ex::Call(k, vec![], udt(k.min(n + 1), vec![]))).collect();
        d.tops = vec![Top::Rel(rel(Op::Project(calls), vec![read(1)]))];
        Some(d)
    }),
];

/// Every family at every size, in both directions.
pub fn run(ctx: &Ctx, families: &[Family], all: usize, top: usize, reg: &ExtensionRegistry) {
    let s = sizes(all, top);
    let k = families.len();
    ctx.space("sizes", (s.len() * k) as u64, |i, case| {
        let mut r = Radix(i);
        let (_, f) = families[r.take(k)];
        match f(s[s.len() - 1 - r.take(s.len())]) {
            Some(d) => {
                round_trip(case, &d, reg);
            }
            None => case.outcome("no such size"),
        }
    });
}
