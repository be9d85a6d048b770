//! C09: section headers and declarations are accepted only in order.
use crate::common::{parse, parses_to, rejected, round_trip};
use crate::engine::{Case, Ctx, Radix, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;
use substrait_explain::extensions::ExtensionRegistry;

/// What a line is, to the model.
#[derive(Clone, Copy, PartialEq)]
enum L {
    Version,
    Extensions,
    Plan,
    Producer,
    Hash,
    Sub(u8),
    Urn(u32),
    Decl(u32, u32),
    Read,
    /// Wrong everywhere.
    Bad,
}

const LETTERS: [(&str, L); 34] = [
    ("=== Version 1.2.3", L::Version),
    ("=== Extensions", L::Extensions),
    ("=== Plan", L::Plan),
    ("  producer: p q", L::Producer),
    ("  git_hash: abc", L::Hash),
    ("URNs:", L::Sub(0)),
    ("Functions:", L::Sub(1)),
    ("Types:", L::Sub(2)),
    ("Type Variations:", L::Sub(3)),
    ("  @  1: urn:a", L::Urn(1)),
    ("  @  2: urn:b", L::Urn(2)),
    ("  #  7 @  1: n", L::Decl(7, 1)),
    ("  #  8 @  2: m", L::Decl(8, 2)),
    ("Read[t => c:i64]", L::Read),
    // From here on, wrong in every section.
    ("  Read[t => c:i64]", L::Bad),
    ("=== Other", L::Bad),
    ("=== Plans", L::Bad),
    ("=== plan", L::Bad),
    ("=== Plan extra", L::Bad),
    ("===", L::Bad),
    ("  === Plan", L::Bad),
    ("  === Extensions", L::Bad),
    ("=== Version", L::Bad),
    ("=== Version 1.2", L::Bad),
    ("=== Extensions:", L::Bad),
    ("producer: p", L::Bad),
    ("    producer: p", L::Bad),
    ("  license: x", L::Bad),
    ("  URNs:", L::Bad),
    ("Variations:", L::Bad),
    ("@  1: urn:a", L::Bad),
    ("#  7 @  1: n", L::Bad),
    ("    #  7 @  1: n", L::Bad),
    ("some words", L::Bad),
];

#[derive(Clone, Default)]
struct S {
    /// 0 initial, 1 version, 2 extensions, 3 plan
    section: u8,
    sub: Option<u8>,
    doc: Doc,
}

fn step(s: &S, l: L) -> Option<S> {
    let mut n = s.clone();
    match l {
        L::Bad => return None,
        L::Version | L::Extensions | L::Plan => {
            let to = match l {
                L::Version => 1,
                L::Extensions => 2,
                _ => 3,
            };
            if to <= s.section {
                return None;
            }
            n.section = to;
            if to == 1 {
                n.doc.version = Some(Ver { num: (1, 2, 3), ..Ver::default() });
            }
        }
        L::Producer | L::Hash => {
            if s.section != 1 {
                return None;
            }
            let v = n.doc.version.as_mut()?;
            let (f, val) = if l == L::Producer { (&mut v.producer, "p q") } else { (&mut v.git_hash, "abc") };
            if !f.is_empty() {
                return None;
            }
            *f = val.into();
        }
        L::Sub(k) => {
            if s.section != 2 {
                return None;
            }
            n.sub = Some(k);
        }
        L::Urn(a) => {
            if s.section != 2 || s.sub != Some(0) || s.doc.env.urns.iter().any(|u| u.0 == a) {
                return None;
            }
            n.doc.env.urns.push((a, if a == 1 { "urn:a" } else { "urn:b" }.into()));
        }
        L::Decl(a, u) => {
            let k = s.sub.filter(|k| s.section == 2 && *k > 0)?;
            if !s.doc.env.urns.iter().any(|x| x.0 == u) {
                return None;
            }
            let list = [&mut n.doc.env.fns, &mut n.doc.env.types, &mut n.doc.env.vars][k as usize - 1].to_vec();
            if list.iter().any(|d| d.0 == a) {
                return None;
            }
            let d = (a, u, if a == 7 { "n" } else { "m" }.to_string());
            match k {
                1 => n.doc.env.fns.push(d),
                2 => n.doc.env.types.push(d),
                _ => n.doc.env.vars.push(d),
            }
        }
        L::Read => {
            if s.section != 3 {
                return None;
            }
            n.doc.tops.push(Top::Rel(rel(Op::Read(vec!["t".into()], vec![("c".into(), simple("i64"))]), vec![])));
        }
    }
    Some(n)
}

fn run_word(word: &[usize]) -> Option<S> {
    word.iter().try_fold(S::default(), |s, k| step(&s, LETTERS[*k].1))
}

fn judge(case: &mut Case, text: &str, end: Option<S>, reg: &ExtensionRegistry) {
    match end {
        Some(s) => {
            case.state(text);
            if s.section < 3 {
                // Without a plan section there is nothing the documentation
                // promises; what is accepted must still not lose anything.
                if let Some(Ok(_)) = parse(case, text, reg) {
                    parses_to(case, text, &s.doc.proto(), reg);
                }
                case.outcome("no plan section");
            } else if parses_to(case, text, &s.doc.proto(), reg) {
                case.outcome("accepted");
            }
        }
        None => {
            rejected(case, text, "a line does not belong where it is", reg);
        }
    }
}

fn text_of(word: &[usize]) -> String {
    word.iter().map(|k| format!("{}\n", LETTERS[*k].0)).collect()
}

pub fn run(ctx: &Ctx) {
    let reg = registry();
    let n = LETTERS.len() as u64;
    // Every short document.
    ctx.space("all-line-sequences", seq_count(n, ctx.pick(3, 4)), |i, case| {
        let w = seq_decode(i, n);
        judge(case, &text_of(&w), run_word(&w), &reg);
    });
    // Every extension of an acceptable beginning by one line, to a depth: a
    // beginning that is already wrong stays wrong.
    let mut frontier: Vec<Vec<u8>> = vec![vec![]];
    for depth in 1..=ctx.pick(8, 10) {
        let words = &frontier;
        ctx.space(&format!("extensions-of-accepted-{depth}"), words.len() as u64 * n, |i, case| {
            let mut r = Radix(i);
            let l = r.take(LETTERS.len());
            let mut w: Vec<usize> = words[r.0 as usize].iter().map(|k| *k as usize).collect();
            w.push(l);
            judge(case, &text_of(&w), run_word(&w), &reg);
        });
        let mut next = vec![];
        for w in words {
            let word: Vec<usize> = w.iter().map(|k| *k as usize).collect();
            let Some(s) = run_word(&word) else { continue };
            for (k, (_, l)) in LETTERS.iter().enumerate() {
                // At most two relations, and no subsection header twice in a row.
                if *l == L::Read && s.doc.tops.len() >= 2 {
                    continue;
                }
                if let (L::Sub(_), Some(p)) = (*l, word.last())
                    && matches!(LETTERS[*p].1, L::Sub(_))
                    && depth > 5
                {
                    continue;
                }
                if step(&s, *l).is_some() {
                    let mut x = w.clone();
                    x.push(k as u8);
                    next.push(x);
                }
            }
        }
        frontier = next;
        if frontier.len() > ctx.pick(60_000, 600_000) {
            break;
        }
    }
    // Blank lines anywhere change nothing.
    let full: Vec<Vec<usize>> = vec![
        vec![0, 3, 4, 1, 5, 9, 10, 6, 11, 12, 7, 11, 8, 12, 2, 13, 13],
        vec![1, 5, 9, 6, 11, 5, 10, 6, 12, 2, 13],
        vec![0, 4, 3, 2],
        vec![2, 13],
    ];
    let blanks = ["\n", "   \n", "\t\n", "\r\n", "\n\n\n", " \u{3000}\n"];
    ctx.space("blank-lines", full.len() as u64 * 20 * 20 * blanks.len() as u64, |i, case| {
        let mut r = Radix(i);
        let w = r.pick(&full);
        let (a, b) = (r.take(20), r.take(20));
        let blank = *r.pick(&blanks);
        if a > w.len() || b > w.len() {
            return;
        }
        let mut t = String::new();
        for k in 0..=w.len() {
            if k == a || k == b {
                t.push_str(blank);
            }
            if k < w.len() {
                t.push_str(LETTERS[w[k]].0);
                t.push('\n');
            }
        }
        judge(case, &t, run_word(w), &reg);
    });
    // Line endings and trailing blanks.
    ctx.space("line-endings", full.len() as u64 * 4, |i, case| {
        let mut r = Radix(i);
        let w = r.pick(&full);
        let t = text_of(w);
        let t = match r.take(4) {
            0 => t.replace('\n', "\r\n"),
            1 => t.replace('\n', "   \n"),
            2 => t.trim_end().to_string(),
            _ => t.replace('\n', "\t\r\n"),
        };
        judge(case, &t, run_word(w), &reg);
    });
    // One line of a full document replaced, removed, duplicated or swapped.
    ctx.space("edited-documents", full.len() as u64 * 17 * (n + 20), |i, case| {
        let mut r = Radix(i);
        let mut w = r.pick(&full).clone();
        let at = r.take(17);
        let with = r.0 as usize;
        if at >= w.len() {
            return;
        }
        if with < LETTERS.len() {
            w[at] = with;
        } else if with == LETTERS.len() {
            w.remove(at);
        } else if with == LETTERS.len() + 1 {
            let l = w[at];
            w.insert(at, l);
        } else {
            let to = with - LETTERS.len() - 2;
            if to >= w.len() {
                return;
            }
            let l = w.remove(at);
            w.insert(to, l);
        }
        judge(case, &text_of(&w), run_word(&w), &reg);
    });
    // Version numbers and details.
    let nums = [0, 1, 9, 10, 255, 4_294_967_295u32];
    let words = ["", "x", "a b", "p: q", "=== Plan", "'q'", "#1", "\u{e9}\u{1f600}", "git_hash: y"];
    ctx.space("versions", 216 * 81 * 2, |i, case| {
        let mut r = Radix(i);
        let num = (*r.pick(&nums), *r.pick(&nums), *r.pick(&nums));
        let (p, g) = (r.pick(&words).to_string(), r.pick(&words).to_string());
        let v = Ver { num, producer: p.clone(), git_hash: g.clone() };
        let tops = vec![Top::Rel(rel(Op::Read(vec!["t".into()], vec![]), vec![]))];
        let d = Doc { version: Some(v.clone()), env: Env::default(), tops };
        if v == Ver::default() {
            return;
        }
        if r.take(2) == 0 {
            round_trip(case, &d, &reg);
        } else {
            // The details in the other order.
            let t = format!("=== Version {}.{}.{}\n  git_hash: {g}\n  producer: {p}\n=== Plan\nRead[t => ]\n", num.0, num.1, num.2);
            case.state(&t);
            parses_to(case, &t, &d.proto(), &reg);
        }
    });
    // Every printable character at every position of a detail.
    let chars: Vec<char> = (0x21u8..0x7f).map(char::from).chain("\u{a1}\u{e9}\u{df}\u{416}\u{4e2d}\u{1f600}\u{301}\u{200d}\u{feff}".chars()).collect();
    ctx.space("detail-characters", chars.len() as u64 * 8 * 3, |i, case| {
        let mut r = Radix(i);
        let c = *r.pick(&chars);
        let word = match r.take(8) {
            0 => format!("{c}"),
            1 => format!("x{c}"),
            2 => format!("{c}x"),
            3 => format!("x{c}y"),
            4 => format!("{c}{c}"),
            5 => format!("x {c}"),
            6 => format!("{c} y"),
            _ => format!("{c}x{c}"),
        };
        let mut v = Ver { num: (1, 2, 3), producer: "p".into(), git_hash: "g".into() };
        let mut env = crate::pools::env();
        match r.take(3) {
            0 => v.producer = word,
            1 => v.git_hash = word,
            // A URN has no blanks.
            _ => env.urns[0].1 = word.replace(' ', "-"),
        }
        let tops = vec![Top::Rel(rel(Op::Read(vec!["t".into()], vec![]), vec![]))];
        round_trip(case, &Doc { version: Some(v), env, tops }, &reg);
    });
    // Long details, long runs of blank lines and many sections' worth of lines.
    let s = crate::sweeps::sizes(ctx.pick(300, 1100), ctx.pick(16_385, 100_001));
    ctx.space("lengths", s.len() as u64 * 5, |i, case| {
        let mut r = Radix(i);
        let kind = r.take(5);
        let n = *r.pick(&s);
        let word: String = "ab c: #@=\u{e9}".chars().cycle().take(n).chain(['x']).collect();
        let tops = vec![Top::Rel(rel(Op::Read(vec!["t".into()], vec![]), vec![]))];
        let v = match kind {
            0 => Ver { num: (1, 2, 3), producer: word, git_hash: String::new() },
            1 => Ver { num: (1, 2, 3), producer: "p".into(), git_hash: word },
            _ => Ver { num: (n as u32, n as u32 + 1, n as u32 * 7), producer: "p".into(), git_hash: "g".into() },
        };
        let d = Doc { version: Some(v), env: crate::pools::env(), tops };
        if kind < 3 {
            round_trip(case, &d, &reg);
            return;
        }
        let text = d.text(&Opts::default());
        let lines: Vec<&str> = text.lines().collect();
        let at = n % (lines.len() + 1);
        let gap = if kind == 3 { "\n" } else { "   \n" };
        let t = format!("{}{}{}", lines[..at].iter().map(|l| format!("{l}\n")).collect::<String>(), gap.repeat(n), lines[at..].iter().map(|l| format!("{l}\n")).collect::<String>());
        case.state(&t);
        parses_to(case, &t, &d.proto(), &reg);
    });
    let bad = [
        "", " ", " 1", " 1.", " 1.2", " 1.2.", " .1.2", " 1..2", " 1.2.3.4", " 1.2.3.", " a.b.c", " 1.2.c", " -1.2.3", " 1.-2.3", " 1.2.-3",
        " 4294967296.0.0", " 0.4294967296.0", " 0.0.4294967296", " 1,2,3", " 1.2.3 x", " 1. 2.3", "1.2.3", "s 1.2.3", ":1.2.3", " v1.2.3", " 1.2.3-rc1", " 0x1.2.3",
        " 1.2.3e1", " 18446744073709551616.0.0", " \u{661}.2.3",
    ];
    ctx.space("bad-version-headers", bad.len() as u64, |i, case| {
        let t = format!("=== Version{}\n=== Plan\nRead[t => c:i64]\n", bad[i as usize]);
        rejected(case, &t, "the version number is malformed", &reg);
    });
}
