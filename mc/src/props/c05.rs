//! C05: names and strings survive quoting exactly.
use crate::common::round_trip;
use crate::engine::{Ctx, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;
use crate::pools::*;

/// A document that uses the string in every kind of name and as a literal.
fn everywhere(s: &str) -> Vec<Doc> {
    let n = s.to_string();
    let lit = Ex::Lit(Lit { v: V::Str(n.clone()), null: false });
    let litn = Ex::Lit(Lit { v: V::Str(n.clone()), null: true });
    let mut v = vec![
        // table parts and columns
        doc(vec![Top::Root(
            vec![n.clone(), "b".into(), n.clone()],
            rel(
                Op::Read(
                    vec![n.clone(), "t".into(), n.clone()],
                    vec![(n.clone(), simple("i64")), ("x".into(), simple("i64")), (n.clone(), simple("string").nullable())],
                ),
                vec![],
            ),
        )]),
        doc(vec![Top::Root(
            vec![n.clone()],
            rel(Op::Read(vec![n.clone()], vec![(n.clone(), list(simple("i64")))]), vec![]),
        )]),
        // literals, and column names of a virtual table
        doc1(rel(
            Op::Virtual {
                rows: vec![vec![lit.clone(), litn.clone()], vec![litn, lit.clone()]],
                filter: Some(Ex::Call(4, vec![lit.clone(), lit.clone()], simple("boolean"))),
                cols: vec![(n.clone(), simple("string")), (n.clone() + "2", simple("string"))],
            },
            vec![],
        )),
    ];
    // extension arguments, columns, and addenda
    let args = Args {
        pos: vec![Arg::Str(n.clone()), Arg::Tuple(vec![Arg::Str(n.clone())]), Arg::Ex(Ex::Call(4, vec![lit], simple("i8")))],
        named: vec![("a b".into(), Arg::Str(n.clone()))],
        cols: vec![Col::Named(n.clone(), simple("i64")), Col::Ex(Ex::Ref(0))],
    };
    let mut r = rel(Op::ExtLeaf(Pay { id: 2, args: args.clone() }), vec![]);
    let flat = Args { cols: vec![], ..args };
    r = rel(Op::Filter(Ex::Ref(0)), vec![r]);
    r.enh = Some(Pay { id: 2, args: flat.clone() });
    r.opts = vec![Pay { id: 0, args: flat }];
    v.push(doc1(r));
    v
}

pub fn run(ctx: &Ctx) {
    crate::words::names(ctx);
    crate::words::names_everywhere(ctx);
    let reg = registry();
    // All strings over the characters special to the format.
    let alphabet: Vec<char> = "a1_ \"'\\\n\t\0,[](){}=>:$#@&.-+?!é😀\u{301}\u{200b}\r".chars().collect();
    let n = alphabet.len() as u64;
    let len = ctx.pick(2, 3);
    ctx.space("strings-over-special-characters", seq_count(n, len), |i, case| {
        let s: String = seq_decode(i, n).into_iter().map(|k| alphabet[k]).collect();
        for d in everywhere(&s) {
            round_trip(case, &d, &reg);
        }
    });
    // Longer strings over the characters that interact with escaping.
    let tight: Vec<char> = "\\\"'nu{".chars().collect();
    let m = tight.len() as u64;
    let len = ctx.pick(4, 6);
    ctx.space("escape-interactions", seq_count(m, len), |i, case| {
        let s: String = seq_decode(i, m).into_iter().map(|k| tight[k]).collect();
        for d in everywhere(&s) {
            round_trip(case, &d, &reg);
        }
    });
    // Every Unicode scalar value, in blocks.
    let step = ctx.pick(64u32, 16);
    let blocks = 0x110000 / step;
    ctx.space("every-unicode-scalar-in-a-literal", blocks as u64, |i, case| {
        let from = i as u32 * step;
        let s: String = (from..from + step).filter_map(char::from_u32).collect();
        if s.is_empty() {
            return;
        }
        for d in everywhere(&s).into_iter().take(3) {
            round_trip(case, &d, &reg);
        }
    });
    let limit = ctx.pick(0x3000u64, 0x20000);
    ctx.space("single-scalar-names", limit, |i, case| {
        let Some(c) = char::from_u32(i as u32) else { return };
        for s in [c.to_string(), format!("a{c}"), format!("{c}a"), format!("a{c}b")] {
            for d in everywhere(&s) {
                round_trip(case, &d, &reg);
            }
        }
    });
    // Words that mean something elsewhere in the format.
    let words: Vec<String> = [
        "Root", "Read", "Read:Virtual", "Filter", "_", "null", "true", "false", "if_then", "limit", "offset", "filter",
        "post_filter", "i64", "list", "list<i64>", "u!x", "=== Plan", "=== Extensions", "- x", "+ Enh:X[_]", "URNs:", "!{x}",
        "0", "1.5", "-1", "$0", "&Inner", "a.b", "a:b", "a:i64", "a\", \"b", "' => '", "x => y", "]", "[", "//", "\\u{41}", "\\n",
        "\\\\", "\\'", "\\\"", "\\", "\\\\\\", "trailing\\", "tab\there", "nul\0nul", "\u{7f}", "\u{feff}bom", " lead", "trail ",
        " ", "  ", "A", "Z9_", "z__", "1a", "_a", "a-b", "é", "aé", "日本", "\u{1f468}\u{200d}\u{1f469}",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain((1..=ctx.pick(9u32, 13)).map(|k| "x".repeat(1 << k)))
    .chain((1..=ctx.pick(9u32, 13)).map(|k| "\\".repeat(1 << k)))
    .collect();
    ctx.space("format-words", words.len() as u64, |i, case| {
        for d in everywhere(&words[i as usize]) {
            round_trip(case, &d, &reg);
        }
    });
    let k = words.len() as u64;
    ctx.space("format-word-pairs", k * k, |i, case| {
        let s = format!("{}{}", words[(i / k) as usize], words[(i % k) as usize]);
        if s.len() < 200 {
            for d in everywhere(&s).into_iter().take(3) {
                round_trip(case, &d, &reg);
            }
        }
    });
    // Number of table parts and root names.
    let names = ["a", "b c", "", "d\"", "e"];
    ctx.space("name-lists", seq_count(5, ctx.pick(4, 6)), |i, case| {
        let v: Vec<String> = seq_decode(i, 5).into_iter().map(|k| names[k].to_string()).collect();
        let table = if v.is_empty() { vec!["t".to_string()] } else { v.clone() };
        let c: Vec<(String, Ty)> = v.iter().map(|n| (n.clone(), simple("i64"))).collect();
        round_trip(case, &doc(vec![Top::Root(v, rel(Op::Read(table, c), vec![]))]), &reg);
    });
    crate::sweeps::run(ctx, crate::sweeps::NAMES, ctx.pick(300, 1100), ctx.pick(16_385, 100_001), &reg);
    ctx.space("many-names", ctx.pick(300, 600), |i, case| {
        let v: Vec<String> = (0..i).map(|k| format!("n{}{k}", if k % 3 == 0 { " " } else { "" })).collect();
        let table = if v.is_empty() { vec!["t".to_string()] } else { v.clone() };
        let c: Vec<(String, Ty)> = v.iter().map(|n| (n.clone(), simple("i64"))).collect();
        round_trip(case, &doc(vec![Top::Root(v, rel(Op::Read(table, c), vec![]))]), &reg);
    });
    ctx.assume("a named table has at least one name part (the grammar has no spelling for none)");
}
