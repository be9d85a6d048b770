//! C19: results depend only on the input.
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use crate::common::{options, try_format, try_parse};
use crate::corpus::docs;
use crate::engine::{Case, Ctx, Radix, guarded, hash64, seq_count, seq_decode};
use crate::ext::{POINT, Rec, registry};
use crate::model::*;
use prost::Message;
use substrait::proto::Plan;
use substrait_explain::OutputOptions;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, Explainable, ExtensionArgs, ExtensionContext, ExtensionError,
    ExtensionRegistry,
};

/// A handler that ends badly.
struct Boom;

impl AnyConvertible for Boom {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), vec![]))
    }
    fn from_any<'a>(_: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Ok(Boom)
    }
    fn type_url() -> String {
        "type.googleapis.com/mc.Boom".into()
    }
}

impl Explainable for Boom {
    fn name() -> &'static str {
        "Boom"
    }
    fn from_args(_: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        panic!("boom")
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        panic!("boom")
    }
}

/// A handler with the name of one of the recording handlers, and its own URL.
struct Impostor(Vec<u8>);

impl AnyConvertible for Impostor {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), self.0.clone()))
    }
    fn from_any<'a>(a: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Ok(Impostor(a.value.to_vec()))
    }
    fn type_url() -> String {
        "type.googleapis.com/mc.Impostor".into()
    }
}

impl Explainable for Impostor {
    fn name() -> &'static str {
        crate::ext::NAMES[0]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        Ok(Impostor(vec![args.positional().len() as u8]))
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        a.push(self.0.first().copied().unwrap_or(0) as i64);
        Ok(a)
    }
}

#[derive(Clone)]
enum Op1 {
    Parse(String),
    Format(Plan, OutputOptions),
}

/// One call: its input and which registry it uses.
#[derive(Clone)]
struct Op {
    name: String,
    what: Op1,
    reg: usize,
}

fn registries() -> Vec<ExtensionRegistry> {
    let mut full = registry();
    full.register_relation::<Boom>().unwrap();
    full.register_enhancement::<Boom>().unwrap();
    let mut other = ExtensionRegistry::new();
    other.register_relation::<Impostor>().unwrap();
    other.register_enhancement::<Impostor>().unwrap();
    other.register_relation::<Rec<1>>().unwrap();
    vec![full, ExtensionRegistry::new(), other]
}

/// Documents that use the same names for different things.
fn colliding() -> Vec<(String, Doc)> {
    let mut v = vec![];
    for (i, (fns, pick)) in [
        (vec![(1, 1, "f")], 1),
        (vec![(2, 1, "f")], 2),
        (vec![(1, 1, "f"), (2, 2, "f")], 1),
        (vec![(1, 1, "f"), (2, 2, "f")], 2),
        (vec![(1, 2, "f:i64"), (2, 2, "f:str")], 2),
        (vec![(1, 2, "g")], 1),
    ]
    .into_iter()
    .enumerate()
    {
        let env = Env {
            urns: vec![(1, "urn:a".into()), (2, "urn:b".into())],
            fns: fns.into_iter().map(|(a, u, n)| (a, u, n.to_string())).collect(),
            types: vec![(1 + i as u32 % 2, 1, "t".into())],
            vars: vec![],
        };
        let cols = (0..1 + i % 3).map(|k| (format!("c{k}"), simple(["i64", "string"][i % 2]))).collect();
        let read = rel(crate::model::Op::Read(vec!["t".into()], cols), vec![]);
        let r = rel(crate::model::Op::Filter(Ex::Call(pick, vec![Ex::Ref(0)], simple("boolean"))), vec![read]);
        v.push((format!("collide{i}"), Doc { version: None, env, tops: vec![Top::Rel(r)] }));
    }
    v
}

fn ops() -> Vec<Op> {
    let mut v = vec![];
    let mut all: Vec<(String, Doc)> = docs().into_iter().map(|(n, d)| (n.to_string(), d)).collect();
    all.extend(colliding());
    for (n, d) in &all {
        let t = d.text(&Opts::default());
        v.push(Op { name: format!("parse {n}"), what: Op1::Parse(t.clone()), reg: 0 });
        v.push(Op { name: format!("format {n}"), what: Op1::Format(d.proto(), OutputOptions::default()), reg: 0 });
        // The same names, no declarations: unresolved.
        if !d.env.fns.is_empty() && n.starts_with("collide") {
            let mut p = d.proto();
            p.extensions.clear();
            v.push(Op { name: format!("format undeclared {n}"), what: Op1::Format(p, OutputOptions::default()), reg: 0 });
            let at = t.find("=== Plan").unwrap_or(0);
            v.push(Op { name: format!("parse undeclared {n}"), what: Op1::Parse(t[at..].into()), reg: 0 });
        }
        if n.starts_with("ext") || n == "addenda" {
            for reg in [1, 2] {
                v.push(Op { name: format!("parse {n} with registry {reg}"), what: Op1::Parse(t.clone()), reg });
                v.push(Op { name: format!("format {n} with registry {reg}"), what: Op1::Format(d.proto(), OutputOptions::default()), reg });
            }
        }
        if ["tree", "literals", "virtual-many", "collide2", "types"].contains(&n.as_str()) {
            for (k, o) in [
                Opts { anchors: Vis::Always, ..Opts::default() },
                Opts { literal_types: Vis::Always, ..Opts::default() },
                Opts { indent: "\t".into(), threshold: 1, ..Opts::default() },
            ]
            .iter()
            .enumerate()
            {
                v.push(Op { name: format!("format {n} with options {k}"), what: Op1::Format(d.proto(), options(o)), reg: 0 });
            }
        }
        if n == "tree" {
            // Broken at every line.
            for (k, _) in t.match_indices('\n') {
                v.push(Op { name: format!("parse tree cut at {k}"), what: Op1::Parse(t[..k - 1].into()), reg: 0 });
            }
        }
    }
    // Many of everything, where an unordered collection would show.
    let many = Env {
        urns: (0..9).map(|i| (i * 5 % 9, format!("urn:{i}"))).collect(),
        fns: (0..9).map(|i| (i * 7 % 9, i, format!("f{}", i % 4))).collect(),
        types: (0..9).map(|i| (i * 2 % 9, i, format!("t{i}"))).collect(),
        vars: (0..9).map(|i| (i * 4 % 9, i, format!("v{i}"))).collect(),
    };
    let d = Doc { version: None, env: many, tops: docs().into_iter().flat_map(|(_, d)| d.tops).collect() };
    v.push(Op { name: "parse many".into(), what: Op1::Parse(d.text(&Opts::default())), reg: 0 });
    v.push(Op { name: "format many".into(), what: Op1::Format(d.proto(), OutputOptions::default()), reg: 0 });
    v.push(Op { name: "format many with registry 1".into(), what: Op1::Format(d.proto(), OutputOptions::default()), reg: 1 });
    let mut p = d.proto();
    let (u, e) = (p.extension_urns.clone(), p.extensions.clone());
    p.extension_urns.extend(u.into_iter().rev());
    p.extensions.extend(e.into_iter().rev());
    v.push(Op { name: "format many doubled".into(), what: Op1::Format(p.clone(), OutputOptions::default()), reg: 0 });
    p.extension_urns.clear();
    v.push(Op { name: "format many without URNs".into(), what: Op1::Format(p, OutputOptions::default()), reg: 0 });
    let alone = "=== Plan\nExtensionLeaf:RecA['x', 1, a=2, a b=3, limit=4, count=5, true_=6, _=7 => c:i64]\n".replace("a b", "'a b'");
    v.push(Op { name: "parse many arguments".into(), what: Op1::Parse(alone.clone()), reg: 0 });
    v.push(Op { name: "parse many arguments with registry 2".into(), what: Op1::Parse(alone), reg: 2 });
    for (n, t) in [
        ("bad arguments", "=== Plan\nExtensionLeaf:RecA[z1=1, z2=2, z3=3, z4=4, z5=5, z6=6, z7=7 => ]\n"),
        ("bad extension", "=== Plan\nExtensionLeaf:Missing[z1=1, z2=2 => ]\n"),
        ("nothing", ""),
        ("no section", "Read[t => ]\n"),
        ("bad header", "=== Nope\n"),
        ("bad version", "=== Version 1.2\n"),
        ("bad urn", "=== Extensions\nURNs:\n  @ 1 x\n"),
        ("bad declaration", "=== Extensions\nFunctions:\n  # 1 @ 1: f\n"),
        ("bad operator", "=== Plan\nNope[]\n"),
        ("bad depth", "=== Plan\nFilter[true => $0]\n      Read[t => a:i64]\n"),
        ("bad type", "=== Plan\nRead[t => a:nope]\n"),
        ("bad literal", "=== Plan\nFilter[99999999999999999999 => $0]\n  Read[t => a:i64]\n"),
        ("two enhancements", "=== Plan\nFilter[true => $0]\n  + Enh:RecA[]\n  + Enh:RecA[]\n  Read[t => a:i64]\n"),
        ("boom", "=== Plan\nExtensionLeaf:Boom[ => ]\n"),
        ("boom addendum", "=== Plan\nFilter[true => $0]\n  + Enh:Boom[]\n  Read[t => a:i64]\n"),
        ("bad argument", "=== Plan\nExtensionLeaf:RecA[zzz=1 => ]\n"),
    ] {
        v.push(Op { name: format!("parse {n}"), what: Op1::Parse(t.into()), reg: 0 });
    }
    v
}

/// Small inputs that differ from each other in one thing only, which whatever
/// is remembered of the one would get wrong for the other.
fn near() -> Vec<Op> {
    let mut v = vec![];
    let mut add = |name: String, text: String| {
        if let Ok(Ok(p)) = try_parse(&text, &registry()) {
            for (k, o) in [OutputOptions::default(), OutputOptions::verbose()].into_iter().enumerate() {
                v.push(Op { name: format!("format {k} {name}"), what: Op1::Format(p.clone(), o), reg: 0 });
            }
        }
        v.push(Op { name: format!("parse {name}"), what: Op1::Parse(text), reg: 0 });
    };
    // Two anchors, each undeclared or declared with one of three names.
    let names = [None, Some("f"), Some("f:i64"), Some("f:any")];
    for (a, na) in names.iter().enumerate() {
        for (b, nb) in names.iter().enumerate() {
            let decl = |i: usize, n: &Option<&str>| n.map(|n| format!("  #{i} @{}: {n}\n", 1 + (a + b + i) % 2)).unwrap_or_default();
            let head = format!("=== Extensions\nURNs:\n  @1: urn:a\n  @2: urn:b\nFunctions:\n{}{}=== Plan\n", decl(1, na), decl(2, nb));
            for r in ["f", "f:i64", "f#1", "f#2"] {
                add(format!("{a}{b} {r}"), format!("{head}Filter[{r}($0):boolean => $0]\n  Read[t => c:i64]\n"));
            }
        }
    }
    let names = [None, Some("t"), Some("u")];
    for (a, na) in names.iter().enumerate() {
        for (b, nb) in names.iter().enumerate() {
            let decl = |i: usize, n: &Option<&str>| n.map(|n| format!("  #{i} @1: {n}\n")).unwrap_or_default();
            let head = format!("=== Extensions\nURNs:\n  @1: urn:a\nTypes:\n{}{}=== Plan\n", decl(1, na), decl(2, nb));
            for r in ["t", "t#2"] {
                add(format!("{a}{b} type {r}"), format!("{head}Read[x => c:{r}]\n"));
            }
        }
    }
    for (k, l) in [
        "Read[t => c:i64]", "Read[t => c:i64?]", "Read[t => c:string]", "Read[t => \"c\":i64]", "Read[t => c:list<i64>]", "Read[t => c:list<i64?>]",
        "Read[t +> c:i64 |> $0, $0]", "Read[t.u => c:i64]", "Read[\"t.u\" => c:i64]", "Read[t => c:i64, d:i64]", "Read[t => c:i64]\n\nRead[t => c:i64]",
        "Root[a]\n  Read[t => c:i64]", "Root[b]\n  Read[t => c:i64]", "Read:Virtual[(1), (2), (3) => c:i64]", "Read:Virtual[(1), (2) => c:i64]",
        "Read:Virtual[(1:i32), (2) => c:i64]", "Filter[$0 => $0]\n  Read[t => c:i64]", "Filter[$0 => $0, $1]\n  Read[t => c:i64, d:i64]",
        "Filter[1 => $0]\n  Read[t => c:i64]", "Filter[1:i32 => $0]\n  Read[t => c:i64]", "Filter['1' => $0]\n  Read[t => c:i64]", "Filter[1.0 => $0]\n  Read[t => c:i64]",
        "Filter[null:i64? => $0]\n  Read[t => c:i64]", "Filter['2020-01-01':date => $0]\n  Read[t => c:i64]", "Filter['2020-01-01':date? => $0]\n  Read[t => c:i64]",
        "Project[$0, 1]\n  Read[t => c:i64]", "Project[1, $0]\n  Read[t => c:i64]", "Aggregate[$0 => $0]\n  Read[t => c:i64]", "Aggregate[_ => $0]\n  Read[t => c:i64]",
        "Fetch[limit=1 => $0]\n  Read[t => c:i64]", "Fetch[offset=1 => $0]\n  Read[t => c:i64]", "Sort[($0, &AscNullsLast) => $0]\n  Read[t => c:i64]",
        "Cross[$0, $1]\n  Read[t => c:i64]\n  Read[u => c:i64]", "Cross[$0, $1]\n  Read[u => c:i64]\n  Read[t => c:i64]", "Cross[$0]\n  Read[t => c:i64]",
        "ExtensionLeaf:RecA[1 => c:i64]", "ExtensionLeaf:RecA['1' => c:i64]", "ExtensionLeaf:RecB[1 => c:i64]", "ExtensionLeaf:RecA[a=1 => c:i64]",
        "Read[t => c:i64]\n  + Enh:RecA[1]", "Read[t => c:i64]\n  + Opt:RecA[1]", "Read[t => c:i64]\n  + Opt:RecA[1]\n  + Opt:RecA[1]",
        "Read:Extension[c:i64]\n  + Ext:RecA[1]", "Read[t => c:i65]", "Read[t => c:i64", "  Read[t => c:i64]",
    ]
    .iter()
    .enumerate()
    {
        add(format!("{k} {}", l.replace('\n', " / ")), format!("=== Plan\n{l}\n"));
    }
    v
}

fn call(op: &Op, regs: &[ExtensionRegistry]) -> String {
    let r = &regs[op.reg];
    match &op.what {
        Op1::Parse(t) => match try_parse(t, r) {
            Ok(Ok(p)) => format!("plan {:?} {p:?}", p.encode_to_vec()),
            Ok(Err(e)) => format!("error {e} {e:?}"),
            Err(p) => format!("panic {p}"),
        },
        Op1::Format(p, o) => {
            let before = p.encode_to_vec();
            let s = match try_format(p, o, r) {
                Ok((t, e)) => {
                    let said: Vec<String> = e.iter().map(|e| e.to_string()).collect();
                    format!("text {t} {e:?} {said:?}")
                }
                Err(p) => format!("panic {p}"),
            };
            if p.encode_to_vec() != before {
                return format!("input changed, {s}");
            }
            s
        }
    }
}

/// The result in a process that has done nothing else.
pub fn probe(i: &str) -> i32 {
    let mut ops = ops();
    ops.extend(near());
    let Some(op) = i.parse::<usize>().ok().and_then(|i| ops.get(i)) else { return 2 };
    println!("{:016x}", hash64(&call(op, &registries())));
    0
}

fn fresh(i: usize) -> Option<String> {
    let me = std::env::current_exe().ok()?;
    let o = Command::new(me).args(["probe", "C19", &i.to_string()]).stderr(Stdio::null()).stdin(Stdio::null()).output().ok()?;
    o.status.success().then(|| String::from_utf8_lossy(&o.stdout).trim().to_string())
}

fn same(case: &mut Case, history: &[&Op], got: &str, want: &str) -> bool {
    case.trace();
    if got == want {
        return true;
    }
    let h: Vec<&str> = history.iter().map(|o| o.name.as_str()).collect();
    let what = format!("after this history the last call gave\n{}\ninstead of\n{}", clip(got), clip(want));
    case.fail("history", &what, &h.join("; "));
    false
}

fn clip(s: &str) -> String {
    s.chars().take(1500).collect()
}

// A scheduler for calls that meet at their handlers.

struct Turns {
    order: Vec<usize>,
    state: Mutex<(usize, bool, Vec<bool>, bool)>,
    moved: Condvar,
}

impl Turns {
    fn new(order: Vec<usize>, threads: usize) -> Arc<Self> {
        Arc::new(Turns {
            order,
            state: Mutex::new((0, false, vec![false; threads], false)),
            moved: Condvar::new(),
        })
    }
    /// Give up the turn and wait for the next one.
    fn point(&self, me: usize, first: bool) {
        let mut s = self.state.lock().unwrap();
        if !first {
            s.1 = false;
            self.moved.notify_all();
        }
        loop {
            // Threads that ended early leave their turns unused.
            while s.0 < self.order.len() && s.2[self.order[s.0]] {
                s.0 += 1;
            }
            let mine = s.0 >= self.order.len() || self.order[s.0] == me;
            if (!s.1 && mine) || s.3 {
                break;
            }
            let (g, t) = self.moved.wait_timeout(s, Duration::from_secs(20)).unwrap();
            s = g;
            if t.timed_out() {
                s.3 = true;
            }
        }
        s.1 = true;
        s.0 += 1;
        self.moved.notify_all();
    }
    fn end(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.1 = false;
        s.2[me] = true;
        self.moved.notify_all();
    }
}

/// How many times a call enters handlers.
fn points(op: &Op, regs: &[ExtensionRegistry]) -> usize {
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    let m = n.clone();
    POINT.with(|p| *p.borrow_mut() = Some(Box::new(move || m.set(m.get() + 1))));
    call(op, regs);
    POINT.with(|p| *p.borrow_mut() = None);
    n.get()
}

/// The `i`-th interleaving of threads with these many steps left.
fn interleaving(mut i: u64, left: &mut [usize]) -> Vec<usize> {
    let mut out = vec![];
    while left.iter().sum::<usize>() > 0 {
        for t in 0..left.len() {
            if left[t] == 0 {
                continue;
            }
            left[t] -= 1;
            let n = interleavings(left);
            if i < n {
                out.push(t);
                break;
            }
            i -= n;
            left[t] += 1;
        }
    }
    out
}

fn interleavings(left: &[usize]) -> u64 {
    let mut n = 1u64;
    let mut done = 0u64;
    for l in left {
        for k in 1..=*l as u64 {
            done += 1;
            n = n * done / k;
        }
    }
    n
}

pub fn run(ctx: &Ctx) {
    let ops = ops();
    let regs = registries();
    // In a process of its own, and first thing in this one.
    let base: Vec<String> = ops.iter().map(|o| call(o, &regs)).collect();
    ctx.space("fresh-processes", ops.len() as u64 * ctx.pick(2, 8), |i, case| {
        let k = i as usize % ops.len();
        case.state(&format!("{i} {}", ops[k].name));
        case.step(1);
        case.trace();
        match fresh(k) {
            Some(h) if h == format!("{:016x}", hash64(&base[k])) => case.outcome("same"),
            Some(h) => case.fail("process", &format!("another process gave {h}"), &ops[k].name),
            None => case.outcome("no process"),
        }
    });
    let first = ops.len();
    let close = near();
    let closed: Vec<String> = close.iter().map(|o| call(o, &regs)).collect();
    ctx.space("fresh-processes-near", close.len() as u64, |i, case| {
        let k = i as usize;
        case.state(&close[k].name);
        case.step(1);
        case.trace();
        match fresh(first + k) {
            Some(h) if h == format!("{:016x}", hash64(&closed[k])) => case.outcome("same"),
            Some(h) => case.fail("process", &format!("another process gave {h} instead of\n{}", clip(&closed[k])), &close[k].name),
            None => case.outcome("no process"),
        }
    });
    // Every two of the inputs that differ in one thing, in both orders.
    let n = close.len() as u64;
    ctx.space("near-pairs", n * n, |i, case| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        case.state(&format!("{}; {}", close[a].name, close[b].name));
        case.step(2);
        let h = [&close[a], &close[b]];
        let _ = same(case, &h[..1], &call(&close[a], &regs), &closed[a]) && same(case, &h, &call(&close[b], &regs), &closed[b]);
    });
    // Every pair of calls, and every longer history over fewer of them.
    let n = ops.len() as u64;
    ctx.space("pairs", n * n, |i, case| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        case.state(&format!("{}; {}", ops[a].name, ops[b].name));
        case.step(3);
        let h = [&ops[a], &ops[b], &ops[a]];
        let _ = same(case, &h[..1], &call(&ops[a], &regs), &base[a])
            && same(case, &h[..2], &call(&ops[b], &regs), &base[b])
            && same(case, &h, &call(&ops[a], &regs), &base[a]);
    });
    let few: Vec<usize> = (0..ops.len())
        .filter(|k| {
            let n = &ops[*k].name;
            n.contains("collide") || n.contains("boom") || n.contains("addenda") || n.contains("extension-leaf") || n.contains("bad ")
        })
        .collect();
    let m = few.len() as u64;
    ctx.space("triples", m.pow(3), |i, case| {
        let mut r = Radix(i);
        let h: Vec<usize> = (0..3).map(|_| *r.pick(&few)).collect();
        let names: Vec<&Op> = h.iter().map(|k| &ops[*k]).collect();
        case.state(&h.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" "));
        case.step(3);
        for (j, k) in h.iter().enumerate() {
            if !same(case, &names[..=j], &call(&ops[*k], &regs), &base[*k]) {
                return;
            }
        }
    });
    // All histories of a core of calls that use one name in different ways.
    let core: Vec<usize> = few.iter().copied().filter(|k| ["parse collide0", "format collide1", "parse collide3", "format undeclared collide0", "parse boom", "parse addenda with registry 2", "format addenda", "parse addenda"].contains(&ops[*k].name.as_str())).collect();
    let c = core.len() as u64;
    ctx.space("histories", seq_count(c, ctx.pick(5, 6)), |i, case| {
        let h: Vec<usize> = seq_decode(i, c).iter().map(|k| core[*k]).collect();
        let names: Vec<&Op> = h.iter().map(|k| &ops[*k]).collect();
        case.state(&format!("{h:?}"));
        case.step(h.len() as u64);
        for (j, k) in h.iter().enumerate() {
            if !same(case, &names[..=j], &call(&ops[*k], &regs), &base[*k]) {
                return;
            }
        }
    });
    // Very long repetition on one thread.
    ctx.space("repeated", ops.len() as u64, |i, case| {
        let o = &ops[i as usize];
        case.state(&o.name);
        for k in 0..ctx.pick(300, 3000) {
            case.step(1);
            if !same(case, &[o], &call(o, &regs), &base[i as usize]) {
                return case.fail("repetition", &format!("at call {k}"), &o.name);
            }
        }
    });
    // Equal registries: every order of registration, and clones.
    let handlers: [fn(&mut ExtensionRegistry); 6] = [
        |r| r.register_relation::<Rec<0>>().unwrap(),
        |r| r.register_enhancement::<Rec<0>>().unwrap(),
        |r| r.register_optimization::<Rec<0>>().unwrap(),
        |r| r.register_optimization::<Rec<1>>().unwrap(),
        |r| r.register_relation::<Rec<1>>().unwrap(),
        |r| r.register_extension_table::<Rec<0>>().unwrap(),
    ];
    let users: Vec<usize> = (0..ops.len()).filter(|k| ops[*k].reg == 0 && (ops[*k].name.contains("ext") || ops[*k].name.contains("addenda"))).collect();
    let build = |order: &[usize]| {
        let mut r = ExtensionRegistry::new();
        order.iter().for_each(|k| handlers[*k](&mut r));
        r
    };
    let first: Vec<String> = users.iter().map(|k| call(&ops[*k], &[build(&[0, 1, 2, 3, 4, 5])])).collect();
    ctx.space("registration-orders", 720 * users.len() as u64, |i, case| {
        let mut r = Radix(i);
        let u = r.take(users.len());
        let mut left: Vec<usize> = (0..6).collect();
        let mut order = vec![];
        while !left.is_empty() {
            order.push(left.remove(r.take(left.len())));
        }
        let reg = build(&order);
        let copy = reg.clone();
        case.state(&format!("{order:?} {}", ops[users[u]].name));
        case.step(3);
        for r in [reg, copy.clone(), copy] {
            if !same(case, &[&ops[users[u]]], &call(&ops[users[u]], &[r]), &first[u]) {
                return;
            }
        }
    });
    // A handler that itself parses or formats.
    let nested: Vec<usize> = (0..ops.len()).filter(|k| points(&ops[*k], &regs) > 0).collect();
    let inner: Vec<usize> = (0..ops.len()).step_by(ctx.pick(3, 1)).collect();
    ctx.space("nested", (nested.len() * inner.len()) as u64, |i, case| {
        let mut r = Radix(i);
        let (a, b) = (*r.pick(&nested), *r.pick(&inner));
        case.state(&format!("{} within {}", ops[b].name, ops[a].name));
        case.step(2);
        let got = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let (sink, op, rs) = (got.clone(), ops[b].clone(), regs.clone());
        POINT.with(|p| *p.borrow_mut() = Some(Box::new(move || sink.borrow_mut().push(call(&op, &rs)))));
        let outer = call(&ops[a], &regs);
        POINT.with(|p| *p.borrow_mut() = None);
        same(case, &[&ops[b], &ops[a]], &outer, &base[a]);
        for g in got.borrow().iter() {
            if !same(case, &[&ops[a], &ops[b]], g, &base[b]) {
                return;
            }
        }
    });
    // Every interleaving, at the handlers, of calls on several threads that
    // share their registry.
    let counts: Vec<(usize, usize)> = nested.iter().map(|k| (*k, points(&ops[*k], &regs) + 1)).filter(|(_, n)| *n <= 8).collect();
    let meet = |case: &mut Case, calls: &[usize], steps: &[usize], i: u64| {
        let order = interleaving(i, &mut steps.to_vec());
        let names: Vec<&Op> = calls.iter().map(|k| &ops[*k]).collect();
        case.state(&format!("{order:?} {:?}", names.iter().map(|o| &o.name).collect::<Vec<_>>()));
        let turns = Turns::new(order.clone(), calls.len());
        let got: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = calls
                .iter()
                .enumerate()
                .map(|(t, k)| {
                    let (turns, op, regs) = (turns.clone(), &ops[*k], &regs);
                    s.spawn(move || {
                        turns.point(t, true);
                        let mine = turns.clone();
                        POINT.with(|p| *p.borrow_mut() = Some(Box::new(move || mine.point(t, false))));
                        let r = guarded(|| call(op, regs)).unwrap_or_else(|p| p);
                        POINT.with(|p| *p.borrow_mut() = None);
                        turns.end(t);
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        case.step(calls.len() as u64);
        if turns.state.lock().unwrap().3 {
            return case.fail("stuck", "the threads wait for each other", &format!("{order:?}"));
        }
        for (t, g) in got.iter().enumerate() {
            if !same(case, &names, g, &base[calls[t]]) {
                return case.fail("schedule", &format!("thread {t} of schedule {order:?}"), &format!("{order:?}"));
            }
        }
        case.outcome("schedule");
    };
    let mut pairs = vec![];
    for a in &counts {
        for b in &counts {
            pairs.push(([a.0, b.0], [a.1, b.1], interleavings(&[a.1, b.1])));
        }
    }
    let cap = ctx.pick(260, u64::MAX);
    let pairs: Vec<_> = pairs.into_iter().filter(|p| p.2 <= cap).collect();
    let total = pairs.iter().map(|p| p.2).sum();
    ctx.space("schedules-2", total, |mut i, case| {
        for (calls, steps, n) in &pairs {
            if i < *n {
                return meet(case, calls, steps, i);
            }
            i -= n;
        }
    });
    let small: Vec<(usize, usize)> = counts.iter().copied().filter(|c| c.1 <= 3).collect();
    let mut threes = vec![];
    for a in &small {
        for b in &small {
            for c in &small {
                threes.push(([a.0, b.0, c.0], [a.1, b.1, c.1], interleavings(&[a.1, b.1, c.1])));
            }
        }
    }
    let keep = ctx.pick(7, 1);
    let threes: Vec<_> = threes.into_iter().step_by(keep).collect();
    let total = threes.iter().map(|p| p.2).sum();
    ctx.space("schedules-3", total, |mut i, case| {
        for (calls, steps, n) in &threes {
            if i < *n {
                return meet(case, calls, steps, i);
            }
            i -= n;
        }
    });
}
