//! Value pools the properties draw from: every construct, with boundary values.

use crate::model::*;

/// Declarations shared by most documents. Function names collide in base name,
/// in full name, and with keywords; type names collide across URNs.
pub fn env() -> Env {
    let f = |a: u32, u: u32, n: &str| (a, u, n.to_string());
    Env {
        urns: vec![
            (1, "extension:io.substrait:functions_arithmetic".into()),
            (2, "https://example.com/a/b.yaml#frag".into()),
            (70_000, "urn:x".into()),
        ],
        fns: vec![
            f(1, 1, "add:i64_i64"),
            f(2, 1, "add:fp64_fp64"),
            f(3, 1, "count:"),
            f(4, 2, "dup"),
            f(5, 70_000, "dup"),
            f(6, 2, "if_then"),
            f(7, 2, "true"),
            f(8, 2, "nullif:any_any"),
            f(9, 2, "i64"),
            f(1000, 2, "equal:any_any"),
            f(4_294_967_295, 2, "last_1:u!json_str"),
            f(0, 2, "zero"),
            f(11, 1, "sum:i64"),
            f(12, 2, "sum:i64"),
        ],
        types: vec![
            f(1, 1, "json"),
            f(2, 2, "geo_point"),
            f(3, 70_000, "geo_point"),
            f(4, 2, "listing"),
            f(5, 1, "i64ish"),
            f(0, 1, "null_t"),
        ],
        vars: vec![f(1, 1, "fixed_json")],
    }
}

pub fn doc(tops: Vec<Top>) -> Doc {
    Doc {
        version: None,
        env: env(),
        tops,
    }
}

pub fn doc1(r: Rel) -> Doc {
    doc(vec![Top::Rel(r)])
}

pub fn cols(n: usize) -> Vec<(String, Ty)> {
    let tys = [
        simple("i64"),
        simple("string").nullable(),
        simple("boolean"),
        simple("fp64").nullable(),
    ];
    (0..n).map(|i| (format!("c{i}"), tys[i % 4].clone())).collect()
}

pub fn read(n: usize) -> Rel {
    rel(Op::Read(vec!["t".into()], cols(n)), vec![])
}

pub fn both(tys: Vec<Ty>) -> Vec<Ty> {
    tys.into_iter().flat_map(|t| [t.clone(), t.nullable()]).collect()
}

/// Every type without element types, both nullabilities.
pub fn flat_types() -> Vec<Ty> {
    let mut v: Vec<Ty> = (0..SIMPLE.len())
        .map(|i| Ty {
            k: K::Simple(i),
            null: false,
        })
        .collect();
    for p in [0, 1, 3, 6, 9, 11, 12] {
        for k in [K::Pts(p), K::PtsTz(p), K::Ptime(p), K::IDay(p)] {
            v.push(Ty { k, null: false });
        }
    }
    for a in [0, 1, 2, 3, 4, 5] {
        v.push(udt(a, vec![]));
    }
    both(v)
}

/// A few types with different shapes.
pub fn few_types() -> Vec<Ty> {
    vec![
        simple("i64"),
        simple("string").nullable(),
        simple("boolean"),
        Ty {
            k: K::Pts(9),
            null: true,
        },
        list(simple("i32").nullable()),
        udt(3, vec![]).nullable(),
        udt(1, vec![simple("i8"), list(simple("date"))]),
        simple("timestamp_tz"),
        Ty {
            k: K::IDay(3),
            null: false,
        },
    ]
}

/// Types one level deeper than the given ones.
pub fn wrap_types(inner: &[Ty]) -> Vec<Ty> {
    let mut v = vec![];
    for t in inner {
        v.push(list(t.clone()));
        v.push(udt(1, vec![t.clone()]));
        v.push(udt(2, vec![simple("i64").nullable(), t.clone()]));
        v.push(udt(4, vec![t.clone(), simple("string")]));
    }
    both(v)
}

pub fn both_lits(vs: Vec<V>) -> Vec<Lit> {
    vs.into_iter()
        .flat_map(|v| {
            [
                Lit {
                    v: v.clone(),
                    null: false,
                },
                Lit { v, null: true },
            ]
        })
        .collect()
}

pub fn null_lit(t: Ty) -> Lit {
    // Substrait: `nullable` does not apply to typed nulls, whose type says it.
    Lit {
        null: false,
        v: V::Null(t),
    }
}

/// One or two literals of every kind.
pub fn few_lits() -> Vec<Lit> {
    let mut v = both_lits(vec![
        V::Bool(true),
        V::I8(-128),
        V::I16(300),
        V::I32(0),
        V::I64(-1),
        V::I64(i64::MAX),
        V::F32(1.5),
        V::F64(-2.0),
        V::Str("it's \"x\", [y] => (z) \\ $0".into()),
        V::Str(String::new()),
        V::Date(-1),
        V::Time(1),
        V::Ts(-1),
        V::PTime(3, 86_399_999),
        V::PTs(0, 1),
        V::PTs(9, -1),
        V::PTsTz(6, 0),
        V::IDay(-1, 0, 5, 3),
        V::IDay(0, 0, 0, 0),
    ]);
    v.push(null_lit(simple("i64").nullable()));
    v.push(null_lit(list(simple("string")).nullable()));
    v
}

pub fn atoms() -> Vec<Ex> {
    vec![
        Ex::Ref(0),
        Ex::Ref(1),
        Ex::Ref(i32::MAX),
        int(0),
        int(-7),
        lit(V::F64(0.5)),
        lit(V::Bool(false)),
        lit(V::Str("a -> b, (c)::i64 '\"".into())),
        Ex::Lit(Lit {
            v: V::I32(5),
            null: true,
        }),
        Ex::Lit(null_lit(simple("date").nullable())),
        lit(V::PTsTz(3, -62_135_596_800_000)),
        lit(V::IDay(1, -2, 3, 6)),
    ]
}

pub const FNS: [u32; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 1000, u32::MAX, 0, 11, 12];

/// Expressions with one operator over the given operands.
pub fn wrap_exprs(inner: &[Ex], others: &[Ex]) -> Vec<Ex> {
    let t = few_types();
    let mut v = vec![];
    for (n, e) in inner.iter().enumerate() {
        let o = |k: usize| others[(n + k) % others.len()].clone();
        for (k, f) in FNS.iter().enumerate() {
            v.push(Ex::Call(*f, vec![e.clone()], t[(n + k) % t.len()].clone()));
        }
        v.push(Ex::Call(1, vec![e.clone(), o(0)], t[n % t.len()].clone()));
        v.push(Ex::Call(1000, vec![o(1), e.clone()], t[(n + 1) % t.len()].clone()));
        v.push(Ex::Call(2, vec![o(0), e.clone(), o(2)], t[(n + 2) % t.len()].clone()));
        for fb in 0..3 {
            for ty in &t {
                v.push(Ex::Cast(Box::new(e.clone()), fb, ty.clone()));
            }
        }
        v.push(Ex::If(vec![(e.clone(), o(0))], Box::new(o(1))));
        v.push(Ex::If(vec![(o(0), e.clone())], Box::new(o(1))));
        v.push(Ex::If(vec![(o(0), o(1))], Box::new(e.clone())));
        v.push(Ex::If(
            vec![(o(0), o(1)), (e.clone(), o(2)), (o(3), o(4))],
            Box::new(o(5)),
        ));
    }
    v
}

pub const POSITIONS: [&str; 14] = [
    "filter",
    "project",
    "project-last",
    "sort",
    "sort-second",
    "grouping",
    "grouping-sets",
    "measure",
    "join",
    "post-filter",
    "virtual-row",
    "virtual-filter",
    "limit",
    "offset",
];

/// A document with the expression at the given position, or `None` where that
/// position gives the expression another meaning (a plain reference among
/// projected columns) or refuses it (a negative bare integer bound).
pub fn place(e: &Ex, pos: usize) -> Option<Doc> {
    let e = e.clone();
    let r = match POSITIONS[pos] {
        "filter" => rel(Op::Filter(e), vec![read(2)]),
        "project" | "project-last" => {
            if matches!(e, Ex::Ref(_)) {
                return None;
            }
            let mut r = if POSITIONS[pos] == "project" {
                rel(Op::Project(vec![e, int(1)]), vec![read(2)])
            } else {
                rel(Op::Project(vec![int(1), e]), vec![read(2)])
            };
            r.emit = Some(vec![2, 0, 3, 1, 0]);
            r
        }
        "sort" => rel(Op::Sort(vec![(e, 0)]), vec![read(2)]),
        "sort-second" => rel(Op::Sort(vec![(Ex::Ref(0), 3), (e, 4), (int(1), 1)]), vec![read(2)]),
        "grouping" => rel(
            Op::Agg(vec![e], vec![vec![0]], vec![(3, vec![], simple("i64"))]),
            vec![read(2)],
        ),
        "grouping-sets" => {
            let other = Ex::Call(4, vec![Ex::Ref(1)], simple("i8"));
            rel(
                Op::Agg(
                    vec![e, other],
                    vec![vec![0], vec![1, 0], vec![]],
                    vec![(3, vec![], simple("i64"))],
                ),
                vec![read(2)],
            )
        }
        "measure" => rel(
            Op::Agg(
                vec![Ex::Ref(1)],
                vec![vec![0]],
                vec![(11, vec![e], simple("i64")), (12, vec![Ex::Ref(0)], simple("i64").nullable())],
            ),
            vec![read(2)],
        ),
        "join" => rel(Op::Join(0, e, None), vec![read(2), read(1)]),
        "post-filter" => rel(Op::Join(2, Ex::Ref(0), Some(e)), vec![read(2), read(1)]),
        "virtual-row" => rel(
            Op::Virtual {
                rows: vec![vec![e.clone(), int(1)], vec![int(2), e]],
                filter: None,
                cols: cols(2),
            },
            vec![],
        ),
        "virtual-filter" => rel(
            Op::Virtual {
                rows: vec![vec![int(1)], vec![int(2)], vec![int(3)]],
                filter: Some(e),
                cols: cols(1),
            },
            vec![],
        ),
        "limit" | "offset" => {
            if let Ex::Lit(Lit { v: V::I64(i), null: false }) = &e
                && *i < 0
            {
                return None;
            }
            if POSITIONS[pos] == "limit" {
                rel(Op::Fetch(Some(e), None), vec![read(2)])
            } else {
                rel(Op::Fetch(Some(int(1)), Some(e)), vec![read(2)])
            }
        }
        _ => unreachable!(),
    };
    Some(doc1(r))
}

/// Mappings over a direct width: none, empty, single, subset, reversed,
/// repeated, rotated; never the identity, which is the same as none.
pub fn emits(w: usize) -> Vec<Option<Vec<i32>>> {
    let n = w as i32;
    let mut v: Vec<Option<Vec<i32>>> = vec![None];
    let mut add = |m: Vec<i32>| {
        if m != (0..n).collect::<Vec<_>>() && !v.contains(&Some(m.clone())) {
            v.push(Some(m));
        }
    };
    add(vec![]);
    if w > 0 {
        add(vec![0]);
        add(vec![n - 1]);
        add((0..n).rev().collect());
        add(vec![0, 0]);
        add((0..n).chain([0]).collect());
        add((0..n - 1).collect());
        add((1..n).chain([0]).collect());
    }
    v
}

/// Every sequence of length 0..=max over 0..w.
pub fn all_mappings(w: usize, max: u32) -> Vec<Vec<i32>> {
    let n = w as u64;
    let mut out = vec![];
    let total = if w == 0 { 1 } else { crate::engine::seq_count(n, max) };
    for i in 0..total {
        let s = if w == 0 { vec![] } else { crate::engine::seq_decode(i, n) };
        out.push(s.into_iter().map(|x| x as i32).collect());
    }
    out
}
