//! Small documents that between them use every construct, with names and
//! numbers (`mk…`, 7000–7999) that occur nowhere else, so that it can be seen
//! which parts of a plan its text still shows.

use crate::model::*;
use crate::pools::null_lit;

fn env() -> Env {
    Env {
        urns: vec![(1, "urn:mk001".into()), (2, "urn:mk002".into())],
        fns: vec![
            (10, 1, "mk003:i64".into()),
            (11, 2, "mk004".into()),
            (12, 2, "dup".into()),
            (13, 1, "dup".into()),
        ],
        types: vec![(20, 1, "mk005".into())],
        vars: vec![],
    }
}

fn m(i: u32) -> String {
    format!("mk{i:03}")
}

fn cols(from: u32, tys: &[Ty]) -> Vec<(String, Ty)> {
    tys.iter().enumerate().map(|(i, t)| (m(from + i as u32), t.clone())).collect()
}

fn read(t: u32, n: u32) -> Rel {
    let tys = [simple("i64"), simple("string").nullable(), simple("boolean"), simple("fp64")];
    let tys: Vec<Ty> = (0..n).map(|i| tys[i as usize % 4].clone()).collect();
    rel(Op::Read(vec![m(t)], cols(t + 1, &tys)), vec![])
}

fn f(args: Vec<Ex>) -> Ex {
    Ex::Call(10, args, simple("i64"))
}

fn pay(id: usize, pos: Vec<Arg>, named: Vec<(&str, Arg)>, cols: Vec<Col>) -> Pay {
    Pay {
        id,
        args: Args {
            pos,
            named: named.into_iter().map(|(n, a)| (n.to_string(), a)).collect(),
            cols,
        },
    }
}

fn doc(tops: Vec<Top>) -> Doc {
    Doc {
        version: None,
        env: env(),
        tops,
    }
}

fn one(r: Rel) -> Doc {
    doc(vec![Top::Rel(r)])
}

fn emit(mut r: Rel, e: Vec<i32>) -> Rel {
    r.emit = Some(e);
    r
}

/// The documents, by name.
pub fn docs() -> Vec<(&'static str, Doc)> {
    let b = || simple("boolean");
    let mut v: Vec<(&'static str, Doc)> = vec![
        ("empty", Doc::default()),
        (
            "version",
            Doc {
                version: Some(Ver {
                    num: (7001, 7002, 7003),
                    producer: m(100),
                    git_hash: m(101),
                }),
                env: env(),
                tops: vec![Top::Rel(read(110, 1)), Top::Root(vec![m(120)], read(130, 1))],
            },
        ),
        ("root", doc(vec![Top::Root(vec![m(100), m(101)], read(110, 2))])),
        ("read", one(rel(Op::Read(vec![m(100), m(101)], cols(110, &[simple("i64"), simple("date").nullable(), udt(20, vec![])])), vec![]))),
        ("read-emit", one(emit(read(100, 3), vec![2, 0, 2]))),
        ("read-nothing", one(read(100, 0))),
        (
            "types",
            one(rel(
                Op::Read(
                    vec![m(100)],
                    cols(
                        110,
                        &[
                            list(list(simple("i8").nullable()).nullable()),
                            udt(20, vec![simple("i16"), list(simple("string"))]).nullable(),
                            Ty { k: K::Pts(3), null: false },
                            Ty { k: K::PtsTz(6), null: true },
                            Ty { k: K::Ptime(9), null: false },
                            Ty { k: K::IDay(0), null: true },
                            simple("uuid"),
                            simple("interval_year"),
                            simple("binary"),
                            simple("timestamp_tz"),
                        ],
                    ),
                ),
                vec![],
            )),
        ),
        (
            "virtual",
            one(rel(
                Op::Virtual {
                    rows: vec![vec![int(7001), f(vec![int(7002)])], vec![int(7003), int(7004)]],
                    filter: Some(Ex::Call(11, vec![Ex::Ref(0), int(7005)], b())),
                    cols: cols(110, &[simple("i64"), simple("i64")]),
                },
                vec![],
            )),
        ),
        (
            "virtual-many",
            one(rel(
                Op::Virtual {
                    rows: (0..4).map(|i| vec![int(7001 + i)]).collect(),
                    filter: None,
                    cols: cols(110, &[simple("i64")]),
                },
                vec![],
            )),
        ),
        (
            "virtual-emit",
            one(emit(
                rel(
                    Op::Virtual {
                        rows: vec![vec![int(7001), int(7002)]],
                        filter: None,
                        cols: cols(110, &[simple("i64"), simple("i64")]),
                    },
                    vec![],
                ),
                vec![0, 1, 1],
            )),
        ),
        (
            "read-extension",
            one(rel(
                Op::ReadExt(cols(110, &[simple("i64")]), pay(0, vec![Arg::Str(m(120)), Arg::Int(7001)], vec![("a", Arg::Str(m(121)))], vec![])),
                vec![],
            )),
        ),
        ("filter", one(rel(Op::Filter(Ex::Call(11, vec![Ex::Ref(0), f(vec![int(7001)]), Ex::Call(12, vec![int(7002)], b())], b())), vec![read(110, 2)]))),
        ("filter-emit", one(emit(rel(Op::Filter(Ex::Ref(1)), vec![read(110, 3)]), vec![2, 2, 0]))),
        (
            "project",
            one(rel(Op::Project(vec![f(vec![Ex::Ref(0)]), int(7001), Ex::Cast(Box::new(int(7002)), 1, simple("i8").nullable())]), vec![read(110, 2)])),
        ),
        ("project-emit", one(emit(rel(Op::Project(vec![f(vec![Ex::Ref(0)]), int(7001)]), vec![read(110, 2)]), vec![3, 0, 2]))),
        (
            "expressions",
            one(rel(
                Op::Project(vec![
                    Ex::Cast(Box::new(Ex::Ref(0)), 0, list(simple("i64"))),
                    Ex::Cast(Box::new(Ex::Ref(0)), 2, simple("i64")),
                    Ex::If(vec![(Ex::Ref(0), int(7001)), (f(vec![int(7002)]), int(7003))], Box::new(int(7004))),
                    Ex::Call(10, vec![Ex::Call(10, vec![Ex::Call(13, vec![int(7005)], b())], b())], udt(20, vec![simple("i64")])),
                    Ex::Lit(null_lit(simple("date").nullable())),
                ]),
                vec![read(110, 1)],
            )),
        ),
        (
            "literals",
            one(rel(
                Op::Project(
                    vec![
                        V::Bool(true),
                        V::I8(-3),
                        V::I16(4),
                        V::I32(7001),
                        V::I64(7002),
                        V::F32(1.5),
                        V::F64(-2.0),
                        V::Str(m(100)),
                        V::Date(100),
                        V::Time(1_000_001),
                        V::Ts(5),
                        V::PTime(3, 17),
                        V::PTs(9, 1),
                        V::PTsTz(6, -1),
                        V::IDay(1, 2, 3, 3),
                    ]
                    .into_iter()
                    .enumerate()
                    .map(|(i, v)| Ex::Lit(Lit { v, null: i % 2 == 1 }))
                    .collect(),
                ),
                vec![read(110, 1)],
            )),
        ),
        (
            "aggregate",
            one(rel(
                Op::Agg(
                    vec![Ex::Ref(0), f(vec![int(7001)])],
                    vec![vec![0, 1]],
                    vec![(10, vec![Ex::Ref(1), int(7002)], simple("i64").nullable()), (11, vec![], simple("i64"))],
                ),
                vec![read(110, 2)],
            )),
        ),
        (
            "aggregate-sets",
            one(rel(
                Op::Agg(vec![Ex::Ref(0), Ex::Ref(1)], vec![vec![0], vec![0, 1], vec![]], vec![(10, vec![int(7001)], simple("i64"))]),
                vec![read(110, 2)],
            )),
        ),
        ("aggregate-all", one(rel(Op::Agg(vec![], vec![], vec![(11, vec![int(7001)], simple("i64"))]), vec![read(110, 2)]))),
        ("sort", one(rel(Op::Sort(vec![(Ex::Ref(0), 0), (f(vec![int(7001)]), 3), (Ex::Ref(1), 4)]), vec![read(110, 2)]))),
        ("fetch", one(rel(Op::Fetch(Some(int(7001)), Some(int(7002))), vec![read(110, 2)]))),
        ("fetch-expression", one(rel(Op::Fetch(Some(f(vec![int(7001)])), None), vec![read(110, 2)]))),
        (
            "join",
            one(rel(
                Op::Join(0, Ex::Call(11, vec![Ex::Ref(0), Ex::Ref(2), int(7001)], b()), Some(Ex::Call(11, vec![int(7002)], b()))),
                vec![read(110, 2), read(120, 1)],
            )),
        ),
        ("join-mark", one(emit(rel(Op::Join(10, Ex::Ref(0), None), vec![read(110, 2), read(120, 1)]), vec![2, 0]))),
        ("join-semi", one(rel(Op::Join(4, Ex::Ref(0), None), vec![read(110, 2), read(120, 1)]))),
        ("set", one(rel(Op::Set(7), vec![read(110, 2), read(120, 2), read(130, 2)]))),
        ("cross", one(emit(rel(Op::Cross, vec![read(110, 2), read(120, 1)]), vec![2, 1]))),
        (
            "extension-leaf",
            one(rel(
                Op::ExtLeaf(pay(
                    0,
                    vec![Arg::Str(m(100)), Arg::Int(7001), Arg::Float(1.5), Arg::Bool(true), Arg::Null, Arg::Enum(m(101)), Arg::Tuple(vec![Arg::Int(7002), Arg::Tuple(vec![])]), Arg::Ex(f(vec![int(7003)]))],
                    vec![("a", Arg::Int(7004)), ("a b", Arg::Str(m(102)))],
                    vec![Col::Named(m(103), simple("i64")), Col::Ex(f(vec![int(7005)]))],
                )),
                vec![],
            )),
        ),
        (
            "extension-single",
            one(rel(Op::ExtSingle(pay(1, vec![Arg::Int(7001)], vec![], vec![Col::Ex(Ex::Ref(0)), Col::Named(m(100), list(simple("i64")))])), vec![read(110, 1)])),
        ),
        (
            "extension-multi",
            one(rel(Op::ExtMulti(pay(2, vec![], vec![("limit", Arg::Int(7001))], vec![Col::Named(m(100), simple("i64"))])), vec![read(110, 1), read(120, 2)])),
        ),
    ];
    let mut r = rel(Op::Filter(Ex::Ref(0)), vec![read(110, 2)]);
    r.enh = Some(pay(0, vec![Arg::Int(7001)], vec![], vec![]));
    r.opts = vec![pay(1, vec![Arg::Str(m(100))], vec![], vec![]), pay(0, vec![], vec![("b", Arg::Enum(m(101)))], vec![])];
    v.push(("addenda", one(r)));
    v.push(("tree", doc(vec![Top::Root(vec![m(100), m(101)], tree())])));
    v
}

/// Every list long: a fault may be anywhere in it.
pub fn long_docs() -> Vec<(&'static str, Doc)> {
    const N: usize = 10;
    let k = |i: usize| int(7000 + i as i64);
    let b = || simple("boolean");
    let leaf = |n| read(110, n);
    vec![
        (
            "long-expressions",
            one(rel(
                Op::Project(vec![
                    Ex::If((0..N).map(|i| (f(vec![k(2 * i)]), k(2 * i + 1))).collect(), Box::new(int(7100))),
                    Ex::Call(11, (200..200 + N).map(k).collect(), b()),
                ]),
                vec![leaf(1)],
            )),
        ),
        ("long-project", one(rel(Op::Project((0..N).map(|i| f(vec![k(i)])).collect()), vec![leaf(1)]))),
        ("long-sort", one(rel(Op::Sort((0..N).map(|i| (f(vec![k(i)]), i % 5)).collect()), vec![leaf(1)]))),
        (
            "long-aggregate",
            one(rel(
                Op::Agg(
                    (0..N).map(|i| f(vec![k(i)])).collect(),
                    vec![(0..N).collect()],
                    (100..100 + N).map(|i| (11, vec![k(i)], simple("i64"))).collect(),
                ),
                vec![leaf(1)],
            )),
        ),
        (
            "long-aggregate-sets",
            one(rel(Op::Agg((0..N).map(|i| f(vec![k(i)])).collect(), (0..N).map(|i| vec![i, (i + 1) % N]).collect(), vec![]), vec![leaf(1)])),
        ),
        (
            "long-virtual",
            one(rel(
                Op::Virtual {
                    rows: (0..N).map(|i| vec![k(2 * i), k(2 * i + 1)]).collect(),
                    filter: Some(Ex::Ref(0)),
                    cols: cols(110, &[simple("i64"), simple("i64")]),
                },
                vec![],
            )),
        ),
        ("long-read", one(rel(Op::Read((100..105).map(m).collect(), cols(110, &vec![simple("i64"); N])), vec![]))),
        ("long-set", one(rel(Op::Set(7), (0..N as u32).map(|i| read(110 + 10 * i, 2)).collect()))),
    ]
}

/// One line per relation, several levels, several branches.
pub fn tree() -> Rel {
    let b = || simple("boolean");
    rel(
        Op::Project(vec![f(vec![int(7900)])]),
        vec![rel(
            Op::Join(0, Ex::Call(11, vec![Ex::Ref(0), int(7901)], b()), None),
            vec![
                rel(Op::Filter(Ex::Call(11, vec![int(7902)], b())), vec![rel(Op::Sort(vec![(Ex::Ref(0), 1)]), vec![read(710, 2)])]),
                rel(
                    Op::Set(7),
                    vec![
                        rel(Op::Agg(vec![Ex::Ref(0)], vec![vec![0]], vec![(10, vec![int(7903)], simple("i64"))]), vec![read(720, 2)]),
                        rel(Op::Fetch(Some(int(7904)), None), vec![read(730, 2)]),
                    ],
                ),
            ],
        )],
    )
}
