//! C15: the registry behaves as a map per kind under any history.
use std::collections::{BTreeMap, BTreeSet};

use crate::common::{options, try_format, try_parse};
use crate::engine::{Case, Ctx, Radix, guarded, seq_count, seq_decode};
use crate::model::*;
use crate::props::c14::{place, swap};
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, Explainable, ExtensionArgs, ExtensionContext, ExtensionError, ExtensionRegistry, ExtensionType,
    ExtensionValue, RegistrationError,
};

/// Names and type URLs that differ as little as possible, and one name that is
/// another's URL.
const NAMES: [&str; 3] = ["N", "n", "mc.N"];
const URLS: [&str; 3] = ["mc.N", "type.googleapis.com/mc.N", "mc.n"];
const KINDS: [ExtensionType; 4] = [ExtensionType::Relation, ExtensionType::ExtensionTable, ExtensionType::Enhancement, ExtensionType::Optimization];

/// A handler with name `N` and type URL `U`, that marks what it handles.
struct Item<const N: usize, const U: usize>(i64);

impl<const N: usize, const U: usize> AnyConvertible for Item<N, U> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(URLS[U].into(), vec![N as u8, U as u8, self.0 as u8]))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Ok(Item(any.value.get(2).copied().unwrap_or(0) as i64))
    }
    fn type_url() -> String {
        URLS[U].into()
    }
}

impl<const N: usize, const U: usize> Explainable for Item<N, U> {
    fn name() -> &'static str {
        NAMES[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        match args.positional() {
            [ExtensionValue::Integer(i)] => Ok(Item(*i)),
            [_, _, ExtensionValue::Integer(i)] => Ok(Item(*i)),
            _ => Err(ExtensionError::InvalidArgument("one integer".into())),
        }
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        a.push(N as i64);
        a.push(U as i64);
        a.push(self.0);
        Ok(a)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Register(usize, usize, usize),
    Describe(u8),
}

/// Per kind, the URL of each registered name; and the descriptors.
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Model {
    kinds: [BTreeMap<usize, usize>; 4],
    descriptors: Vec<u8>,
}

impl Model {
    fn apply(&mut self, s: Step) -> bool {
        match s {
            Step::Register(k, n, u) => {
                let m = &mut self.kinds[k];
                if m.contains_key(&n) || m.values().any(|v| *v == u) {
                    return false;
                }
                m.insert(n, u);
            }
            Step::Describe(d) => self.descriptors.push(d),
        }
        true
    }
}

fn register(r: &mut ExtensionRegistry, k: usize, n: usize, u: usize) -> Result<(), RegistrationError> {
    macro_rules! go {
        ($($n:literal $u:literal)*) => {
            match (n, u) {
                $(($n, $u) => match k {
                    0 => r.register_relation::<Item<$n, $u>>(),
                    1 => r.register_extension_table::<Item<$n, $u>>(),
                    2 => r.register_enhancement::<Item<$n, $u>>(),
                    _ => r.register_optimization::<Item<$n, $u>>(),
                },)*
                _ => unreachable!(),
            }
        };
    }
    go!(0 0 0 1 0 2 1 0 1 1 1 2 2 0 2 1 2 2)
}

/// One step on the real registry; an error message if it answers wrongly.
fn real_step(r: &mut ExtensionRegistry, m: &Model, s: Step, ok: bool) -> Result<(), String> {
    match s {
        Step::Describe(d) => {
            r.add_descriptor(vec![d]);
            Ok(())
        }
        Step::Register(k, n, u) => match (register(r, k, n, u), ok) {
            (Ok(()), true) => Ok(()),
            (Ok(()), false) => Err(format!("{s:?} conflicts but was accepted")),
            (Err(e), true) => Err(format!("{s:?} was refused: {e}")),
            (Err(RegistrationError::DuplicateName { ext_type, name }), false) => {
                if ext_type == KINDS[k] && name == NAMES[n] && m.kinds[k].contains_key(&n) {
                    Ok(())
                } else {
                    Err(format!("{s:?}: wrong reason: duplicate {ext_type:?} {name}"))
                }
            }
            (
                Err(RegistrationError::ConflictingTypeUrl {
                    type_url,
                    ext_type,
                    existing_name,
                }),
                false,
            ) => {
                let holder = m.kinds[k].iter().find(|(_, v)| **v == u).map(|(n, _)| NAMES[*n]);
                if ext_type == KINDS[k] && type_url == URLS[u] && holder == Some(existing_name.as_str()) {
                    Ok(())
                } else {
                    Err(format!("{s:?}: wrong reason: {type_url} of {ext_type:?} {existing_name}"))
                }
            }
        },
    }
}

fn one(i: i64) -> ExtensionArgs {
    let mut a = ExtensionArgs::default();
    a.push(i);
    a
}

/// Every answer of the registry is the one the maps give.
fn answers(r: &ExtensionRegistry, m: &Model) -> Result<(), String> {
    for (k, kind) in KINDS.into_iter().enumerate() {
        let map = &m.kinds[k];
        let mut names: Vec<&str> = map.keys().map(|n| NAMES[*n]).collect();
        names.sort();
        if r.extension_names(kind) != names {
            return Err(format!("{kind:?}: names {:?} instead of {names:?}", r.extension_names(kind)));
        }
        for (n, name) in NAMES.iter().enumerate() {
            if r.has_extension(kind, name) != map.contains_key(&n) {
                return Err(format!("has_extension({kind:?}, {name:?}) is wrong"));
            }
            let a = one(5);
            let got = match k {
                0 => r.parse_extension(name, &a),
                1 => r.parse_extension_table(name, &a),
                2 => r.parse_enhancement(name, &a),
                _ => r.parse_optimization(name, &a),
            };
            match (got, map.get(&n)) {
                (Ok(any), Some(u)) if any.type_url == URLS[*u] && any.value == [n as u8, *u as u8, 5] => {}
                (Err(ExtensionError::NotFound { name: x }), None) if x == *name => {}
                (got, want) => return Err(format!("parsing {kind:?} {name:?}: {got:?}, registered: {want:?}")),
            }
        }
        for (u, url) in URLS.iter().enumerate() {
            let value = [9, 9, 7];
            let any = AnyRef::new(url, &value);
            let got = match k {
                0 => r.decode(any),
                1 => r.decode_extension_table(any),
                2 => r.decode_enhancement(any),
                _ => r.decode_optimization(any),
            };
            let holder = map.iter().find(|(_, v)| **v == u).map(|(n, _)| *n);
            match (&got, holder) {
                (Ok((name, args)), Some(n)) => {
                    let ints: Vec<i64> = args.positional.iter().filter_map(|v| i64::try_from(v).ok()).collect();
                    if name != NAMES[n] || ints != [n as i64, u as i64, 7] || args.positional.len() != 3 {
                        return Err(format!("decoding {kind:?} {url:?} gave {name:?} {ints:?}"));
                    }
                }
                (Err(ExtensionError::NotFound { name }), None) if name == url => {}
                _ => return Err(format!("decoding {kind:?} {url:?}: {got:?}, registered: {holder:?}")),
            }
        }
        if r.has_extension(kind, "") || r.has_extension(kind, "N ") || r.has_extension(kind, "other") {
            return Err(format!("{kind:?} has an extension nobody registered"));
        }
    }
    let want: Vec<Vec<u8>> = m.descriptors.iter().map(|d| vec![*d]).collect();
    if r.descriptors() != want {
        return Err(format!("descriptors {:?} instead of {want:?}", r.descriptors()));
    }
    Ok(())
}

/// The same answers when the registry is used to read and write text.
fn text_answers(r: &ExtensionRegistry, m: &Model) -> Result<(), String> {
    for (k, map) in m.kinds.iter().enumerate() {
        // Place 0 is an extension leaf, 3..=5 are the addenda.
        let at = [0, 3, 4, 5][k];
        for (n, name) in NAMES.iter().enumerate() {
            let args = Args {
                pos: vec![Arg::Int(4242)],
                ..Args::default()
            };
            let d = place(Pay { id: 0, args: args.clone() }, at);
            let quoted = name_text(name);
            let text = d.text(&Opts::default()).replace("RecA", &quoted).replace("4242", "5");
            let old = crate::ext::any_of(&Pay { id: 0, args });
            let mut plan = d.proto();
            let Some(u) = map.get(&n) else {
                if try_parse(&text, r)?.is_ok() {
                    return Err(format!("{quoted} is not registered here, but is accepted:\n{text}"));
                }
                continue;
            };
            let new = pbjson_types::Any {
                type_url: URLS[*u].into(),
                value: vec![n as u8, *u as u8, 5].into(),
            };
            swap(&mut plan, &old, &new);
            match try_parse(&text, r)? {
                Ok(p) if p == plan => {}
                Ok(_) => return Err(format!("{quoted} gives another payload:\n{text}")),
                Err(e) => return Err(format!("{quoted} is registered, but: {e}\n{text}")),
            }
            let want = text.replace("[5", &format!("[{n}, {u}, 5"));
            let (got, errs) = try_format(&plan, &options(&Opts::default()), r)?;
            if got != want || !errs.is_empty() {
                return Err(format!("formatted as\n{got}\ninstead of\n{want}\nerrors {errs:?}"));
            }
        }
    }
    Ok(())
}

fn history(case: &mut Case, steps: &[Step], text: bool) {
    let desc = format!("{steps:?}");
    case.state(&desc);
    case.step(steps.len() as u64);
    case.trace();
    let r = guarded(|| -> Result<(), String> {
        let mut real = ExtensionRegistry::new();
        let mut model = Model::default();
        for (i, s) in steps.iter().enumerate() {
            let before = (real.clone(), model.clone());
            let mut next = model.clone();
            let ok = next.apply(*s);
            real_step(&mut real, &model, *s, ok)?;
            model = next;
            // Twice: looking up changes nothing; and earlier copies are their own.
            answers(&real, &model).map_err(|e| format!("after step {i}: {e}"))?;
            if i + 1 == steps.len() {
                answers(&real, &model).map_err(|e| format!("asked again: {e}"))?;
                answers(&before.0, &before.1).map_err(|e| format!("copy taken before step {i}: {e}"))?;
                // A copy goes its own way.
                let mut copy = real.clone();
                let mut other = model.clone();
                for k in 0..4 {
                    for n in 0..3 {
                        let s = Step::Register(k, n, (n + i) % 3);
                        let mut next = other.clone();
                        let ok = next.apply(s);
                        real_step(&mut copy, &other, s, ok)?;
                        other = next;
                    }
                }
                answers(&copy, &other).map_err(|e| format!("filled copy: {e}"))?;
                answers(&real, &model).map_err(|e| format!("after filling a copy: {e}"))?;
                if text {
                    text_answers(&real, &model)?;
                    answers(&real, &model).map_err(|e| format!("after use: {e}"))?;
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => case.outcome("as the maps"),
        Ok(Err(e)) => case.fail("registry", &e, &desc),
        Err(p) => case.fail("panic", &p, &desc),
    }
}

fn alphabet(kinds: &[usize], names: usize, urls: usize, describe: bool) -> Vec<Step> {
    let mut v = vec![];
    for k in kinds {
        for n in 0..names {
            for u in 0..urls {
                v.push(Step::Register(*k, n, u));
            }
        }
    }
    if describe {
        v.extend([Step::Describe(1), Step::Describe(2)]);
    }
    v
}

/// Every reachable state of the maps, and every step out of each.
fn reachable(ctx: &Ctx, name: &str, letters: &[Step], text: bool) {
    let mut seen: BTreeSet<Model> = BTreeSet::from([Model::default()]);
    let mut frontier: Vec<(Model, Vec<Step>)> = vec![(Model::default(), vec![])];
    let mut depth = 0;
    while !frontier.is_empty() {
        let f = &frontier;
        ctx.space(&format!("{name}-{depth}"), (f.len() * letters.len()) as u64, |i, case| {
            let mut r = Radix(i);
            let l = r.take(letters.len());
            let mut steps = f[r.0 as usize].1.clone();
            steps.push(letters[l]);
            history(case, &steps, text);
        });
        let mut next = vec![];
        for (m, path) in f {
            for l in letters {
                let mut n = m.clone();
                if n.apply(*l) && seen.insert(n.clone()) {
                    let mut p = path.clone();
                    p.push(*l);
                    next.push((n, p));
                }
            }
        }
        frontier = next;
        depth += 1;
    }
}

pub fn run(ctx: &Ctx) {
    // Every history of registrations, refused ones included, to a length.
    let all = alphabet(&[0, 1, 2, 3], 3, 3, true);
    let n = all.len() as u64;
    ctx.space("histories", seq_count(n, ctx.pick(3, 4)), |i, case| {
        let steps: Vec<Step> = seq_decode(i, n).into_iter().map(|x| all[x]).collect();
        history(case, &steps, false);
    });
    // Longer histories with fewer names.
    for (a, b) in [(0, 1), (2, 3), (0, 2), (1, 3)] {
        let few = alphabet(&[a, b], 2, 2, false);
        let n = few.len() as u64;
        ctx.space(&format!("long-{a}{b}"), seq_count(n, ctx.pick(5, 7)), |i, case| {
            let steps: Vec<Step> = seq_decode(i, n).into_iter().map(|x| few[x]).collect();
            history(case, &steps, false);
        });
    }
    // Every state of one kind and of two, with text; of all four, without.
    for k in 0..4 {
        reachable(ctx, &format!("one-{k}"), &alphabet(&[k], 3, 3, false), true);
    }
    for a in 0..4 {
        for b in a + 1..4 {
            reachable(ctx, &format!("two-{a}{b}"), &alphabet(&[a, b], 3, 3, false), !ctx.quick());
        }
    }
    reachable(ctx, "all", &alphabet(&[0, 1, 2, 3], 2, 2, false), true);
    // A registry keeps working when it is refused something while in use.
    ctx.space("shared", 4 * 9, |i, case| {
        let mut r = Radix(i);
        let (k, n, u) = (r.take(4), r.take(3), r.take(3));
        let steps = [Step::Register(k, n, u), Step::Register(k, n, (u + 1) % 3), Step::Register(k, (n + 1) % 3, u), Step::Register((k + 1) % 4, n, u)];
        history(case, &steps, true);
    });
}
