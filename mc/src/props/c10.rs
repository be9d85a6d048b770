//! C10: parsing any text gives a plan or a located error.
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::common::parse;
use crate::engine::{Case, Ctx, Radix, Violation, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;
use crate::pools::*;
use substrait_explain::ParseError;
use substrait_explain::extensions::ExtensionRegistry;

pub fn location(e: &ParseError) -> Option<(i64, String)> {
    let c = match e {
        ParseError::Extension(c, _) => c,
        ParseError::ExtensionDetail(c, _) => c,
        ParseError::Plan(c, _) => c,
        ParseError::Expected { context, .. } => context,
        ParseError::UnregisteredExtension { context, .. } => context,
        ParseError::RelationParse(c, _) => c,
        ParseError::ValidationError(c, _) => c,
        ParseError::Initial(c, _) => c,
        ParseError::Relation(c, _) => c,
        #[allow(unreachable_patterns)]
        _ => return None,
    };
    Some((c.line_no, c.line.clone()))
}

/// The input from the start of its n-th line (counted from 1).
fn from_line(text: &str, n: i64) -> Option<&str> {
    let mut rest = text;
    for _ in 1..n {
        rest = &rest[rest.find('\n')? + 1..];
    }
    (n >= 1).then_some(rest)
}

/// No panic; an error names a line of the input and quotes its text.
pub fn total(case: &mut Case, text: &str, reg: &ExtensionRegistry) -> Option<Option<i64>> {
    case.state(text);
    let r = parse(case, text, reg)?;
    case.trace();
    match r {
        Ok(_) => {
            case.outcome("plan");
            Some(None)
        }
        Err(e) => {
            let Some((n, line)) = location(&e) else {
                case.fail("unlocated", &format!("the error names no line: {e}"), text);
                return None;
            };
            let here = from_line(text, n).filter(|r| !r.trim().is_empty());
            let quoted = here.is_some_and(|r| {
                let own = r.trim_start();
                !line.trim().is_empty() && own.starts_with(line.trim())
            });
            if !quoted {
                case.fail("wrong-line", &format!("blames line {n} as {line:?}, which is not there: {e}"), text);
                return None;
            }
            if !e.to_string().contains(&format!("line {n}")) {
                case.fail("message", &format!("the message does not name line {n}: {e}"), text);
                return None;
            }
            case.outcome("located error");
            Some(Some(n))
        }
    }
}

const TOKENS: [&str; 40] = [
    "$", "0", "(", ")", "[", "]", ",", ":", "::", "?", "!", "'", "\"", "\\", "=>", "->", "_", "&", "#", "@", "<", ">", "null",
    "i64", "if_then(", "f", "-", ".", " ", "\n", "\u{e9}", "+>", "|>", "=", "list", "1.5", "99999999999999999999", "\r", "\t", "u!",
];

const CONTEXTS: [(&str, &str); 26] = [
    ("", ""),
    ("=== Plan\n", ""),
    ("=== Plan\nRead[t => c:i64]\n", ""),
    ("=== Plan\nFilter[", " => $0]\n  Read[t => c:i64]"),
    ("=== Plan\nFilter[f(", "):i64 => $0]\n  Read[t => c:i64]"),
    ("=== Plan\nRead[t => c:", "]"),
    ("=== Plan\nRead[t ", "]"),
    ("=== Plan\nRead[", " => c:i64]"),
    ("=== Plan\nRead:Virtual[", " => c:i64]"),
    ("=== Plan\nRead:Virtual[\n  - ", "\n  - => c:i64]"),
    ("=== Plan\nProject[", "]\n  Read[t => c:i64]"),
    ("=== Plan\nAggregate[", " => $0]\n  Read[t => c:i64]"),
    ("=== Plan\nAggregate[$0 => ", "]\n  Read[t => c:i64]"),
    ("=== Plan\nSort[(", ") => $0]\n  Read[t => c:i64]"),
    ("=== Plan\nFetch[limit=", " => $0]\n  Read[t => c:i64]"),
    ("=== Plan\nJoin[&Inner, ", " => $0]\n  Read[t => c:i64]\n  Read[t => c:i64]"),
    ("=== Plan\nExtensionLeaf:RecA[", "]"),
    ("=== Plan\nRead[t => c:i64]\n  + Enh:RecA[", "]"),
    ("=== Plan\nRead[t => c:i64]\n  + ", ""),
    ("=== Extensions\nURNs:\n  ", "\n=== Plan\n"),
    ("=== Extensions\nURNs:\n  @1: u\nFunctions:\n  ", "\n=== Plan\n"),
    ("=== Extensions\nURNs:\n  @1: u\nTypes:\n  #1 @1:", "\n=== Plan\n"),
    ("=== Version ", "\n=== Plan\n"),
    ("=== Version 1.2.3\n  ", "\n=== Plan\n"),
    ("=== Plan\nRoot[", "]\n  Read[t => c:i64]"),
    ("=== Plan\nProject['1", "':interval_day<3>]\n  Read[t => c:i64]"),
];

/// A document using every construct, as lines.
fn sample() -> Vec<String> {
    [
        "=== Version 0.55.1",
        "  producer: me",
        "  git_hash: abc",
        "=== Extensions",
        "URNs:",
        "  @  1: urn:a",
        "  @  2: urn:b",
        "Functions:",
        "  #  1 @  1: f:i64_i64",
        "  #  2 @  1: f:str",
        "  #  3 @  2: g",
        "Types:",
        "  #  1 @  2: json",
        "Type Variations:",
        "  #  1 @  2: v",
        "",
        "=== Plan",
        "Root[a, \"b c\"]",
        "  Join[&LeftSemi, g($0, $2):boolean, post_filter=g($1):boolean => $0, $1]",
        "    + Enh:RecA[1, a='x']",
        "    Project[$0, f:i64_i64($0, ($1)::?i64):i64, if_then($0 -> 1, _ -> null:i64?)]",
        "      + Opt:RecB[&E, (1, 2)]",
        "      Aggregate[$0, ($1)::i64 => $0, f:str('x'):json?]",
        "        Sort[($0, &AscNullsFirst) => $0, $1]",
        "          Read[s.t => x:i64, y:list<string?>]",
        "    Set[&UnionAll => $0, $1]",
        "      Fetch[limit=5, offset=1 => $0, $1]",
        "        Read:Virtual[",
        "          - (1, 'a'),",
        "          - (2, 'b'),",
        "          - (3, '2020-01-01':date)",
        "          - => p:i64, q:string]",
        "      Filter[true => $0, $1]",
        "        Cross[$0, $1]",
        "          ExtensionLeaf:RecA[_ => z:i64]",
        "          Read:Extension[w:i64]",
        "            + Ext:RecB['detail']",
        "Read[u +> k:i64 |> $0, $0]",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

/// Replacements for single lines of the sample that leave exactly that line at
/// fault: (line index, text).
fn faults() -> Vec<(usize, &'static str)> {
    let mut v: Vec<(usize, &'static str)> = vec![
        (0, "=== Version 1"),
        (0, "=== Version 1.2.x"),
        (0, "=== Version"),
        (1, "  maker: me"),
        (1, "producer: me"),
        (1, "    producer: me"),
        (2, "  producer: twice"),
        (2, "  nonsense"),
        (3, "=== Extension"),
        (3, "=== Version 1.2.3"),
        (4, "URN:"),
        (4, "  URNs:"),
        (5, "  @: urn:a"),
        (5, "  @  1 urn:a"),
        (5, "  @ -1: urn:a"),
        (5, "  @ 4294967296: urn:a"),
        (6, "  @  1: urn:b"),
        (6, "  @  2:"),
        (6, "    @  2: urn:b"),
        (8, "  #  1 @  9: f:i64_i64"),
        (8, "  #  1 @  1: 9f"),
        (9, "  #  1 @  1: f:str"),
        (9, "  #  2 @  1: f:str extra"),
        (9, "  #  2: f:str"),
        (10, "  #  3 @  2: u!g"),
        (10, "  # 99999999999 @  2: g"),
        (12, "  #  1 @  2: json:i64"),
        (12, "  #  1 @  2:"),
        (13, "Type Variation:"),
        (14, "  #  1 @  3: v"),
        (16, "=== Plans"),
        (16, "=== Extensions"),
        (17, "Root[a, b c]"),
        (17, "Root(a)"),
        (17, "Rot[a]"),
        (17, "  Filter[$0 => $0]"),
        (18, "  Join[&Lefty, g($0, $2):boolean => $0, $1]"),
        (18, "  Join[&LeftSemi, h($0, $2):boolean => $0, $1]"),
        (18, "  Join[&LeftSemi, f($0):boolean => $0, $1]"),
        (18, "  Join[&LeftSemi => $0, $1]"),
        (18, "  Join[&LeftSemi, g($0):boolean => $0, $99999999999]"),
        (18, "  Filter[g($0):boolean => $0, $1]"),
        (18, "  Read[t => c:i64]"),
        (18, "    Join[&LeftSemi, g($0, $2):boolean => $0, $1]"),
        (19, "    + Enh:Nope[1]"),
        (19, "    + Enh:RecA[1"),
        (19, "    + Ext:RecA[1]"),
        (19, "    + Enh:RecA[a=1, 2]"),
        (19, "    + Enh:RecA[zzz=1]"),
        (19, "    + Enh:RecA[99999999999999999999]"),
        (19, "      + Enh:RecA[1]"),
        (19, "+ Enh:RecA[1]"),
        (20, "    Project[$0, f($0):i64]"),
        (20, "    Project[$0, f#9($0):i64]"),
        (20, "    Project[$0, f:str#1($0):i64]"),
        (20, "    Project[$0, g@1($0):i64]"),
        (20, "    Project[$0, g($0):nope]"),
        (20, "    Project[$0, g($0)]"),
        (20, "    Project[$0, 300:i8]"),
        (20, "    Project[$0, 'x':date]"),
        (20, "    Project[$0, null]"),
        (20, "    Project[$0, ($1)::map<i64, i64>]"),
        (20, "    Project[$0,, 1]"),
        (20, "    Project[$0, 1, 2, 3, $2]"),
        (20, "    Project[$0, $1"),
        (20, "    Cross[$0, $1]"),
        (21, "      + Opt:RecB[&]"),
        (21, "      + Opt:RecC[1]"),
        (21, "      - Opt:RecB[1]"),
        (22, "      Aggregate[$0 => $0, f:str('x)]"),
        (22, "      Aggregate[$0 => $0, f:i8('x'):i64]"),
        (22, "      Aggregate[$0, => $0]"),
        (22, "      Agg[$0 => $0]"),
        (23, "        Sort[($0, &Asc) => $0, $1]"),
        (23, "        Sort[($0) => $0, $1]"),
        (23, "          Sort[($0, &AscNullsFirst) => $0, $1]"),
        (24, "          Read[s. => x:i64]"),
        (24, "          Read[s.t => x:i65]"),
        (24, "          Read[s.t => x:list<>]"),
        (24, "          Read[s.t => x:precisiontimestamp<13>]"),
        (24, "          Read[s.t => x]"),
        (24, "           Read[s.t => x:i64]"),
        (25, "    Set[&Union => $0, $1]"),
        (25, "    Set[&UnionAll => 0, 1]"),
        (25, "    Filter[true => $0, $1]"),
        (26, "      Fetch[limit=-5 => $0, $1]"),
        (26, "      Fetch[limit=5, limit=6 => $0, $1]"),
        (26, "      Fetch[top=5 => $0, $1]"),
        (26, "      Fetch[limit='x':date => $0, $1]"),
        (32, "      Filter[true => $0, $1, x]"),
        (32, "      Filter['a':i64 => $0, $1]"),
        (32, "      Filter[true]"),
        (33, "        Cross[$a]"),
        (33, "        Crosss[$0]"),
        (34, "          ExtensionLeaf:Nope[_ => z:i64]"),
        (34, "          ExtensionSingle:RecA[_ => z:i64]"),
        (34, "          ExtensionLeaf:RecA[1, 2 => z:zzz]"),
        (34, "          ExtensionLeaf:RecA[a=1, a=2 => z:i64]"),
        (34, "          ExtensionLeaf[_ => z:i64]"),
        (35, "          Read:Extension[w]"),
        (35, "          Read:Extensions[w:i64]"),
        (36, "            + Ext:Nope['detail']"),
        (36, "            + Ext:RecB['detail]"),
        (36, "            + Exu:RecB['detail']"),
        (37, "Read[u +> k:i64 |> k]"),
        (37, "Read[u => k:i64 |> $0]"),
        (37, "                  Read[u => k:i64]"),
        (37, "@"),
        (37, "- (1)"),
        (37, "[]"),
        (37, "\u{1f600}"),
        (37, "=== End"),
    ];
    // Faults in a multi-line read are blamed on its first line.
    v.extend([(27, "        Read:Virtual[("), (27, "        Read:Virtual{")]);
    v
}

pub fn run(ctx: &Ctx) {
    let reg = registry();
    let n = TOKENS.len() as u64;
    // Every short sequence of tokens in every context.
    for (k, (pre, post)) in CONTEXTS.iter().enumerate() {
        let len = if k <= 3 || k == 16 { ctx.pick(4, 5) } else { ctx.pick(3, 4) };
        // The longest lengths only over the tokens that nest.
        ctx.space(&format!("tokens-in-{k}"), seq_count(n, len.min(ctx.pick(3, 4))), |i, case| {
            let body: String = seq_decode(i, n).into_iter().map(|t| TOKENS[t]).collect();
            total(case, &format!("{pre}{body}{post}"), &reg);
        });
        let few = ["$0", "(", ")", "]", ",", "f", "if_then(", " -> ", "_", ":i64", "::", "'", "1", " "];
        let m = few.len() as u64;
        ctx.space(&format!("nesting-tokens-in-{k}"), seq_count(m, len), |i, case| {
            let body: String = seq_decode(i, m).into_iter().map(|t| few[t]).collect();
            total(case, &format!("{pre}{body}{post}"), &reg);
        });
    }
    // A document with one bad line blames that line, wherever it ends up.
    let base = sample();
    let f = faults();
    let pads = ["", "\n", "\n   \n\n", "\r\n"];
    ctx.space("one-bad-line", f.len() as u64 * 4 * 4 * 2, |i, case| {
        let mut r = Radix(i);
        let (at, bad) = *r.pick(&f);
        let lead = *r.pick(&pads);
        let mid = *r.pick(&pads);
        let eol = if r.take(2) == 0 { "\n" } else { "\r\n" };
        let mut lines = base.clone();
        lines[at] = bad.to_string();
        let mut text = lead.to_string();
        let mut want = 0;
        for (k, l) in lines.iter().enumerate() {
            // Blank lines before the bad line, but not inside a read.
            if !(28..=31).contains(&k) && (k == at || k == at / 2) {
                text.push_str(mid);
            }
            if k == at {
                want = text.matches('\n').count() as i64 + 1;
            }
            text.push_str(l);
            text.push_str(eol);
        }
        match total(case, &text, &reg) {
            Some(Some(n)) if n == want => case.outcome("blamed"),
            Some(Some(n)) => case.fail("blames-other", &format!("line {want} is at fault, but line {n} is blamed"), &text),
            Some(None) => case.fail("accepted", &format!("line {want} is wrong"), &text),
            None => {}
        }
    });
    // The bad line at every distance from the start of each section.
    let s = crate::sweeps::sizes(ctx.pick(300, 1100), ctx.pick(4097, 16_385));
    ctx.space("line-numbers", s.len() as u64 * 6, |i, case| {
        let mut r = Radix(i);
        let kind = r.take(6);
        let n = *r.pick(&s);
        let (head, rep, bad): (&str, &dyn Fn(usize) -> String, &str) = match kind {
            0 => ("=== Plan\n", &|k| format!("Read[t{k} => c:i64]\n"), "Read[t => c:i65]\n"),
            1 => ("=== Plan\n", &|_| "\n".into(), "Nope[]\n"),
            2 => ("=== Extensions\nURNs:\n", &|k| format!("  @{k}: urn:{k}\n"), "  @x: urn\n"),
            3 => ("=== Extensions\nURNs:\n  @0: urn:0\nFunctions:\n", &|k| format!("  #{k} @0: f{k}\n"), "  #0 @9: f\n"),
            4 => ("=== Plan\nSet[&UnionAll => $0]\n", &|k| format!("  Read[t{k} => c:i64]\n"), "  Read[t => c:i64, ]]\n"),
            _ => ("=== Plan\nRead:Virtual[(0),\n", &|k| format!("  - ({k}),\n"), "  - (1) => c:i64]\n  + Nope:X[1]\n"),
        };
        let mut text = head.to_string();
        for k in 0..n {
            text.push_str(&rep(k));
        }
        let want = text.matches('\n').count() as i64 + 1 + (kind == 5) as i64;
        text.push_str(bad);
        match total(case, &text, &reg) {
            Some(Some(n)) if n == want => case.outcome("blamed"),
            Some(Some(n)) => case.fail("blames-other", &format!("line {want} is at fault, but line {n} is blamed"), &text),
            Some(None) => case.fail("accepted", &format!("line {want} is wrong"), &text),
            None => {}
        }
    });
    ctx.space("sample", 1, |_, case| {
        let text = base.join("\n");
        if total(case, &text, &reg) != Some(None) {
            case.fail("rejected", "the sample document is valid", &text);
        }
    });
    // A bad continuation line of a multi-line read is blamed on the read.
    let bad = ["- (1, 'a'", "- 1, 'a'", "- (1, 'a') ]", "- => p:i64, q:string]", "-(1)", "- (nope(1):i64)", "- (1:date)", "- ", "- x", "- (1, 'a'),,"];
    ctx.space("bad-continuation", bad.len() as u64 * 4, |i, case| {
        let mut r = Radix(i);
        let b = *r.pick(&bad);
        let at = 28 + r.take(4);
        let mut lines = base.clone();
        lines[at] = format!("          {b}");
        let text = lines.join("\n");
        match total(case, &text, &reg) {
            Some(Some(n)) if (28..=33).contains(&n) => case.outcome("blamed the read"),
            Some(Some(n)) => case.fail("blames-other", &format!("the read on lines 28 to 32 is at fault, but line {n} is blamed"), &text),
            Some(None) if at == 31 => {}
            Some(None) => case.fail("accepted", "a continuation line is wrong", &text),
            None => {}
        }
    });
    // Every edit of one position of documents using every construct.
    let mut docs: Vec<String> = vec![base.join("\n")];
    let small = |d: Doc| d.text(&Opts::default());
    let few_env = Env {
        urns: vec![(1, "urn:a".into())],
        fns: vec![(1, 1, "add:i64_i64".into()), (2, 1, "add:fp64_fp64".into()), (3, 1, "count:".into()), (4, 1, "dup".into()), (11, 1, "sum:i64".into()), (12, 1, "sum:i64".into()), (1000, 1, "equal:any_any".into())],
        types: vec![(1, 1, "json".into()), (3, 1, "geo_point".into())],
        vars: vec![],
    };
    for (k, e) in wrap_exprs(&atoms()[..6], &atoms()).iter().enumerate().filter(|(k, _)| k % 11 == 0) {
        if let Some(mut d) = place(e, k % POSITIONS.len()) {
            d.env = few_env.clone();
            docs.push(small(d));
        }
    }
    let tok = ["", "\n", " ", "$", "(", ")", "[", "]", "'", "\"", "\\", ",", ":", "0", "x", "-", "\u{e9}", "?", "<", "&", "_", "\r", "  ", "99999999999999999999", "i8", "+ Enh:RecA[_]\n"];
    let starts: Vec<(usize, usize)> = docs
        .iter()
        .enumerate()
        .take(ctx.pick(16, 200))
        .flat_map(|(d, t)| t.char_indices().map(move |(p, _)| (d, p)))
        .collect();
    ctx.space("single-edits", starts.len() as u64 * tok.len() as u64 * 2, |i, case| {
        let mut r = Radix(i);
        let t = *r.pick(&tok);
        let insert = r.take(2) == 0;
        let (d, p) = starts[r.0 as usize];
        let text = &docs[d];
        let rest = &text[p..];
        let skip = if insert { 0 } else { rest.chars().next().map(|c| c.len_utf8()).unwrap_or(0) };
        total(case, &format!("{}{t}{}", &text[..p], &rest[skip..]), &reg);
    });
    // Every prefix and every line removed, moved or repeated.
    ctx.space("prefixes", starts.len() as u64, |i, case| {
        let (d, p) = starts[i as usize];
        total(case, &docs[d][..p], &reg);
        total(case, &docs[d][p..], &reg);
    });
    let nl = base.len() as u64;
    ctx.space("line-moves", nl * nl * 3, |i, case| {
        let mut r = Radix(i);
        let (a, b, how) = (r.take(nl as usize), r.take(nl as usize), r.take(3));
        let mut l = base.clone();
        match how {
            0 => {
                let x = l.remove(a);
                l.insert(b.min(l.len()), x);
            }
            1 => {
                let x = l[a].clone();
                l.insert(b, x);
            }
            _ => {
                l.drain(a.min(b)..a.max(b));
            }
        }
        total(case, &l.join("\n"), &reg);
    });
    // Every indentation of every line.
    ctx.space("line-indents", nl * 40, |i, case| {
        let mut r = Radix(i);
        let (a, d) = (r.take(nl as usize), r.take(40));
        let mut l = base.clone();
        l[a] = format!("{}{}", " ".repeat(d), l[a].trim_start());
        total(case, &l.join("\n"), &reg);
    });
    // Every character, wherever one may stand.
    let spots = [
        ("", ""),
        ("=== Plan\n", ""),
        ("=== Plan\nRead[", " => c:i64]"),
        ("=== Plan\nRead[t => c:i64]", ""),
        ("=== Plan\nProject['", "']\n  Read[t => c:i64]"),
        ("=== Plan\nProject['\\", "']\n  Read[t => c:i64]"),
        ("=== Plan\nRoot[\"\\", "\"]\n  Read[t => c:i64]"),
        ("=== Extensions\nURNs:\n  @1: u", "\n"),
        ("=== Version 1.2.3\n  producer: ", "\n"),
        ("=== Plan\nProject['\\u{", "}']\n  Read[t => c:i64]"),
        ("=== Plan\nProject['", "1':date]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['1", "d':interval_day<3>]\n  Read[t => c:i64]"),
    ];
    let chars: u64 = ctx.pick(0x3100, 0x11_0000);
    ctx.space("every-character", chars * spots.len() as u64, |i, case| {
        let mut r = Radix(i);
        let (pre, post) = *r.pick(&spots);
        let Some(c) = char::from_u32(r.0 as u32) else { return };
        total(case, &format!("{pre}{c}{post}"), &reg);
    });
    // Every odd character at every place of the sample.
    let odd: Vec<char> = "\0\u{1}\u{7}\u{8}\t\u{b}\u{c}\r\u{1b}\u{1c}\u{7f}\u{80}\u{85}\u{a0}\u{e9}\u{301}\u{661}\u{1680}\u{2003}\u{200b}\u{200d}\u{2028}\u{2029}\u{202f}\u{3000}\u{feff}\u{fffd}\u{fffe}\u{1f600}\u{e0001}\u{10ffff}\u{130}\u{212a}\u{ff11}".chars().collect();
    let whole: Vec<char> = base.join("\n").chars().collect();
    let more = ctx.pick(1, 2);
    ctx.space("odd-characters", (whole.len() as u64 + 1) * odd.len() as u64 * more, |i, case| {
        let mut r = Radix(i);
        let twice = r.take(more as usize);
        let c = *r.pick(&odd);
        let at = r.0 as usize;
        let mut t = whole.clone();
        for _ in 0..=twice {
            t.insert(at, c);
        }
        let text: String = t.iter().collect();
        total(case, &text, &reg);
    });
    let spots = [("=== Plan\n", "Read[t => c:i64]"), ("=== Plan\nFilter[$0 => $0]\n ", "Read[t => c:i64]"), ("=== Plan\nFilter[$0 => $0]\n", "  Read[t => c:i64]"), ("", "=== Plan\n"), ("=== Extensions\n", "URNs:\n  @1: u"), ("=== Extensions\nURNs:\n", "  @1: u"), ("=== Version 1.2.3\n ", "producer: x"), ("=== Plan\nRead:Virtual[(1),\n ", "- => c:i64]"), ("=== Plan\nFilter[$0", " => $0]\n  Read[t => c:i64]"), ("=== Plan\nRead[t => c:i64]\n", "+ Opt:RecA[1]")];
    ctx.space("every-leading-character", chars * spots.len() as u64, |i, case| {
        let mut r = Radix(i);
        let (pre, post) = *r.pick(&spots);
        let Some(c) = char::from_u32(r.0 as u32) else { return };
        total(case, &format!("{pre}{c}{post}"), &reg);
    });
    // Numbers of every length wherever a number may stand.
    let spots = [
        ("=== Version ", ".2.3\n=== Plan\n"),
        ("=== Version 1.2.", "\n=== Plan\n"),
        ("=== Extensions\nURNs:\n  @", ": u\n"),
        ("=== Extensions\nURNs:\n  @1: u\nFunctions:\n  #", "@1: f\n"),
        ("=== Extensions\nURNs:\n  @1: u\nFunctions:\n  #1@", ": f\n"),
        ("=== Plan\nFilter[$", " => $0]\n  Read[t => c:i64]"),
        ("=== Plan\nFilter[$0 => $", "]\n  Read[t => c:i64]"),
        ("=== Plan\nProject[", "]\n  Read[t => c:i64]"),
        ("=== Plan\nProject[", ":i8]\n  Read[t => c:i64]"),
        ("=== Plan\nProject[", ":fp32]\n  Read[t => c:i64]"),
        ("=== Plan\nProject[1.", "]\n  Read[t => c:i64]"),
        ("=== Plan\nProject[", ".5:fp32]\n  Read[t => c:i64]"),
        ("=== Plan\nFetch[limit=", " => $0]\n  Read[t => c:i64]"),
        ("=== Plan\nRead[t => c:precisiontime<", ">]"),
        ("=== Plan\nRead[t => c:u!j#", "]"),
        ("=== Plan\nRead[t => c:j@", "]"),
        ("=== Plan\nProject[f#", "():i64]\n  Read[t => c:i64]"),
        ("=== Plan\nProject[f@", "():i64]\n  Read[t => c:i64]"),
        ("=== Plan\nExtensionLeaf:RecA[", "]"),
        ("=== Plan\nExtensionLeaf:RecA[", ".5]"),
        ("=== Plan\nExtensionLeaf:RecA[($", ", 1)]"),
        ("=== Plan\nProject['", "d':interval_day<3>]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['1d ", "s':interval_day<3>]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['1d 1s ", "ms':interval_day<3>]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['", "-01-01':date]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['2020-01-", "':date]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['2020-01-01T00:00:", "':timestamp]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['2020-01-01T00:00:00.", "':precisiontimestamp<9>]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['", "-01-01T00:00:00':precisiontimestamp<9>]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['00:", ":00':precisiontime<12>]\n  Read[t => c:i64]"),
        ("=== Plan\nProject['x':interval_day<", ">]\n  Read[t => c:i64]"),
    ];
    let digits = ["0", "1", "9", "12", "127", "128", "255", "256", "262142", "262143", "32768", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"];
    ctx.space("numbers", spots.len() as u64 * (digits.len() as u64 * 3 + 700), |i, case| {
        let mut r = Radix(i);
        let (pre, post) = *r.pick(&spots);
        let k = r.0 as usize;
        let num = if k < digits.len() * 3 {
            format!("{}{}", ["", "-", "00"][k % 3], digits[k / 3])
        } else {
            let k = k - digits.len() * 3;
            format!("{}{}", if k % 2 == 0 { "" } else { "-" }, ["9", "0", "1"][k % 3].repeat(k / 2 + 1))
        };
        total(case, &format!("{pre}{num}{post}"), &reg);
    });
    // Valid nesting of every bracketed construct is accepted to a depth.
    let nests: [(&str, &str, &str, &str, &str); 9] = [
        ("Filter[", "f(", "$0", "):i64", " => $0]\n  Read[t => c:i64]"),
        ("Filter[", "f($0, ", "$0", ", 1):i64", " => $0]\n  Read[t => c:i64]"),
        ("Filter[", "(", "$0", ")::i64", " => $0]\n  Read[t => c:i64]"),
        ("Filter[", "if_then(true -> 1, _ -> ", "$0", ")", " => $0]\n  Read[t => c:i64]"),
        ("Filter[", "if_then(", "$0", " -> 1, _ -> 2)", " => $0]\n  Read[t => c:i64]"),
        ("Read[t => c:", "list<", "i64", ">", "]"),
        ("Read[t => c:", "j<", "i64", ">", "]"),
        ("ExtensionLeaf:RecA[", "(", "1", ",)", "]"),
        ("ExtensionLeaf:RecA[", "(1, ", "f($0):i64", ")", " => x:i64]"),
    ];
    ctx.space("valid-nesting", nests.len() as u64 * 64, |i, case| {
        let mut r = Radix(i);
        let (pre, open, mid, close, post) = nests[r.take(nests.len())];
        let d = r.0 as usize;
        let text = format!(
            "=== Extensions\nURNs:\n  @1: u\nFunctions:\n  #1@1: f\nTypes:\n  #1@1: j\n=== Plan\n{pre}{}{mid}{}{post}\n",
            open.repeat(d),
            close.repeat(d)
        );
        if let Some(Some(n)) = total(case, &text, &reg) {
            case.fail("rejected", &format!("valid nesting of depth {d} is refused at line {n}"), &text);
        }
    });
    // Deep trees of relations.
    ctx.space("deep-trees", 40, |i, case| {
        let d = (i as usize + 1) * 25;
        let mut t = String::from("=== Plan\n");
        for k in 0..d {
            t.push_str(&format!("{}Filter[$0 => $0]\n", "  ".repeat(k)));
        }
        let unfinished = t.clone();
        t.push_str(&format!("{}Read[t => c:i64]\n", "  ".repeat(d)));
        if let Some(Some(n)) = total(case, &t, &reg) {
            case.fail("rejected", &format!("a chain of {d} relations is refused at line {n}"), &t);
        }
        if total(case, &unfinished, &reg) == Some(None) {
            case.fail("accepted", "the innermost filter has no input", &unfinished);
        }
    });
    // Unfinished nesting, to a depth at which the parser still ends.
    let opens = ["if_then(", "list<", "f(", "((", "(1, ", "j<", "[", "if_then($0 -> ", "if_then($0 -> 1, _ -> "];
    ctx.space("unfinished-nesting", opens.len() as u64 * 12 * CONTEXTS.len() as u64, |i, case| {
        let mut r = Radix(i);
        let (pre, post) = *r.pick(&CONTEXTS);
        let o = *r.pick(&opens);
        let d = r.0 as usize;
        total(case, &format!("{pre}{}{post}", o.repeat(d)), &reg);
        total(case, &format!("{pre}{}", o.repeat(d)), &reg);
    });
    // Known not to end, or to end the process: run apart, with a time limit.
    if !ctx.replaying() {
        for (name, kind) in PROBES {
            if let Err(what) = probe_run(name) {
                ctx.add_violation(Violation {
                    space: "probes".into(),
                    kind: kind.to_string(),
                    key: format!("probes/{name}"),
                    what,
                    input: name.to_string(),
                });
            }
        }
    }
    ctx.assume("nesting is bounded: 64 levels of valid brackets, 11 of unfinished ones, 1000 of relations; beyond that see the known findings");
}

/// Inputs run in a process of their own.
const PROBES: [(&str, &str); 3] = [
    ("unfinished if_then( nested 40 deep", "hang"),
    ("unfinished list< nested 40 deep", "hang"),
    ("casts nested 100000 deep", "crash"),
];

fn probe_text(name: &str) -> String {
    match name {
        "unfinished if_then( nested 40 deep" => format!("=== Plan\nFilter[{}", "if_then(".repeat(40)),
        "unfinished list< nested 40 deep" => format!("=== Plan\nRead[t => c:{}", "list<".repeat(40)),
        _ => format!("=== Plan\nFilter[{}$0{} => $0]\n  Read[t => c:i64]\n", "(".repeat(100_000), ")::i64".repeat(100_000)),
    }
}

pub fn probe(name: &str) -> i32 {
    let _ = substrait_explain::parse(&probe_text(name));
    0
}

fn probe_run(name: &str) -> Result<(), String> {
    let Ok(me) = std::env::current_exe() else { return Ok(()) };
    let Ok(mut child) = Command::new(me).args(["probe", "C10", name]).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else {
        return Ok(());
    };
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) if s.success() => return Ok(()),
            Ok(Some(s)) => return Err(format!("the parsing process ended with {s}")),
            Ok(None) if start.elapsed() > Duration::from_secs(5) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err("parsing did not end within 5 s".into());
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}
