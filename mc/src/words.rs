//! Every word over an alphabet of pieces, in the places where it can stand. Text
//! that is accepted has a meaning, so writing that meaning must give a text with
//! the same meaning, without a complaint, and writing that once more the same text.
use crate::common::{bytes, diff, format, parse};
use crate::engine::{Case, Ctx, Radix, seq_count, seq_decode};
use crate::ext::registry;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{OutputOptions, Visibility};

pub const HEAD: &str = "=== Extensions
URNs:
  @  1: urn:a
  @  2: urn:b
Functions:
  #  1 @  1: f
  #  2 @  1: add:i64_i64
  #  3 @  2: add:i64_i64
  #  4 @  1: nullif:any
  #  5 @  2: true
  #  6 @  2: g:
  #  7 @  2: add
  #  8 @  1: if_then
Types:
  #  1 @  1: t
  #  2 @  2: t
  #  3 @  1: json
  #  4 @  1: i64s

=== Plan
";

/// Accepted text is understood.
pub fn stable(case: &mut Case, text: &str, reg: &ExtensionRegistry) {
    case.state(text);
    let Some(r) = parse(case, text, reg) else { return };
    let Ok(p) = r else { return case.outcome("refused") };
    case.trace();
    let all = [
        OutputOptions::default(),
        OutputOptions { literal_types: Visibility::Always, show_simple_extension_anchors: Visibility::Always, ..OutputOptions::default() },
    ];
    for o in &all {
        let Some((again, errors)) = format(case, &p, o, reg, text) else { return };
        if let Some(e) = errors.first() {
            // Positions beyond the input and unspecified nullability can be
            // written down, and are reported whenever they are shown.
            if text.contains('\u{2049}') || again.contains("!{Emitted}") {
                return case.outcome("accepted with a complaint");
            }
            return case.fail("complaint", &format!("it was accepted, and cannot be written: {e}"), text);
        }
        match parse(case, &again, reg) {
            None => return,
            Some(Err(e)) => return case.fail("unreadable", &format!("it is written as something else: {e}"), text),
            Some(Ok(q)) if bytes(&q) != bytes(&p) => {
                return case.fail("other-plan", &format!("{}\n{again}", diff(&format!("{q:?}"), &format!("{p:?}"))), text);
            }
            Some(Ok(q)) => match format(case, &q, o, reg, text) {
                Some((t, _)) if t == again => {}
                Some((t, _)) => return case.fail("other-text", &diff(&t, &again), text),
                None => return,
            },
        }
        case.trace();
    }
    case.outcome("accepted");
}

/// All words up to a length, in each context.
pub fn words(ctx: &Ctx, own: &str, name: &str, contexts: &[(&str, &str)], pieces: &[&str], len: u32) {
    let reg = registry();
    let n = pieces.len() as u64;
    // Shorter where another property is decided.
    let len = if ctx.prop == own { len } else { len - 2 };
    for (k, (pre, post)) in contexts.iter().enumerate() {
        ctx.space(&format!("words-{name}-{k}"), seq_count(n, len), |i, case| {
            let body: String = seq_decode(i, n).into_iter().map(|t| pieces[t]).collect();
            stable(case, &format!("{HEAD}{pre}{body}{post}"), &reg);
        });
    }
}

pub fn expressions(ctx: &Ctx) {
    let pieces = [
        "$0", "$1", "1", "(", ")", ", ", ":", "::", "?", "!", "i64", "f(", "if_then(", " -> ", "_", "null", "true", "#", "@", "'x'",
    ];
    let places = [
        ("Project[", "]\n  Read[a => b:i64, c:t#1]\n"),
        ("Fetch[limit=", " => $0]\n  Read[a => b:i64]\n"),
        ("Aggregate[", " => $0]\n  Read[a => b:i64]\n"),
        ("Aggregate[$0 => ", "]\n  Read[a => b:i64]\n"),
        ("Read:Virtual[(", ") => a:i64]\n"),
        ("Sort[(", ", &AscNullsLast) => $0]\n  Read[a => b:i64]\n"),
    ];
    words(ctx, "C02", "expressions", &places[..1], &pieces, ctx.pick(4, 5));
    words(ctx, "C02", "placed", &places[1..], &pieces, ctx.pick(3, 4));
    // Longer ones over the pieces of one construct each.
    let p = &places[..1];
    words(ctx, "C02", "chains", p, &["if_then(", "$0", " -> ", ", ", "_", ")", "true"], ctx.pick(7, 8));
    words(ctx, "C02", "casts", p, &["(", "$0", ")", "::", "?", "!", "i64", " "], ctx.pick(6, 7));
    words(ctx, "C02", "calls", p, &["f", "add", ":", "i64_i64", "#2", "@1", "(", "$0", "):i64", ", "], ctx.pick(6, 6));
}

pub fn literals(ctx: &Ctx) {
    let p = [("Project[", "]\n  Read[a => b:i64]\n")];
    words(ctx, "C03", "numbers", &p, &["-", "0", "1", "9", ".", "e", "+", ":", "i8", "fp32", "fp64", "?"], ctx.pick(5, 6));
    words(ctx, "C03", "quoted", &p, &["'", "2024-01-01", "T", " ", "10:00:00", ".5", "Z", ":", "date", "time", "timestamp", "precisiontimestamp<3>", "interval_day<3>", "1d", "2s", "3ms", "?"], ctx.pick(5, 5));
    words(ctx, "C03", "words", &p, &["true", "false", "null", ":", "boolean", "string", "?", "⁉", "i64", "'", "t#1"], ctx.pick(5, 5));
}

pub fn types(ctx: &Ctx) {
    let pieces = [
        "i64", "boolean", "list", "<", ">", "?", "⁉", "u!", "t", "json", "#1", "@1", "#2", "precisiontimestamp", "interval_day", "3", ", ", "map", " ", "timestamp",
    ];
    let places = [("Read[a => b:", "]\n"), ("Project[null:", "]\n  Read[a => b:i64]\n"), ("Project[($0)::", "]\n  Read[a => b:i64]\n")];
    words(ctx, "C04", "types", &places[..1], &pieces, ctx.pick(4, 5));
    words(ctx, "C04", "placed-types", &places[1..], &pieces, ctx.pick(3, 4));
    words(ctx, "C04", "nested-types", &places, &["list", "<", ">", "?", "i64", "json", ", "], ctx.pick(6, 7));
}

pub fn names(ctx: &Ctx) {
    let pieces = ["a", "_", "1", "\"", "\\", "n", "u{41}", "'", ".", " ", "\u{e9}", "-", "0", "x7"];
    let places = [("Read[", " => b:i64]\n"), ("Read[t => ", ":i64]\n"), ("Root[", "]\n  Read[t => b:i64]\n"), ("Project['", "']\n  Read[t => b:i64]\n")];
    words(ctx, "C05", "names", &places, &pieces, ctx.pick(4, 5));
}

pub fn references(ctx: &Ctx) {
    let pieces = ["f", "add", "g", "true", "nullif", "if_then", ":", "i64", "_", "any", "#", "1", "2", "3", "@", " ", "json"];
    let places = [("Project[", "($0):i64]\n  Read[a => b:i64]\n"), ("Read[a => b:", "]\n")];
    words(ctx, "C06", "references", &places, &pieces, ctx.pick(4, 5));
}

pub fn relations(ctx: &Ctx) {
    let pieces = ["$0", "$1", ", ", " => ", " +> ", " |> ", "_", "a", "b:i64", "(", ")", "&Inner", "&UnionAll", "&AscNullsLast", "limit=", "1", "true"];
    let one = "]\n  Read[a => b:i64, c:i64]\n";
    let two = "]\n  Read[a => b:i64]\n  Read[a => c:i64]\n";
    let places = [
        ("Read[", "]\n"),
        ("Filter[", one),
        ("Project[", one),
        ("Aggregate[", one),
        ("Sort[", one),
        ("Fetch[", one),
        ("Root[", one),
        ("Join[", two),
        ("Set[", two),
        ("Cross[", two),
        ("Read:Virtual[", "]\n"),
        ("ExtensionSingle:RecA[", one),
    ];
    words(ctx, "C01", "relations", &places, &pieces, ctx.pick(4, 5));
    words(ctx, "C01", "aggregates", &places[3..4], &["_", "$0", "$1", "(", ")", ", ", " => "], ctx.pick(7, 8));
    words(ctx, "C01", "rows", &places[10..11], &["(", ")", "1", ", ", "_", " => ", "a:i64", "filter=", "true"], ctx.pick(6, 7));
    words(ctx, "C01", "sorts", &places[4..5], &["(", ")", "$0", "_", "&Clustered", ", ", " => "], ctx.pick(6, 7));
}

pub fn arguments(ctx: &Ctx) {
    let pieces = ["1", "1.5", "-", "true", "null", "nullif(", "'x'", "&A", "$0", "(", ")", ", ", ",", "n", "=", "_", " => ", "b:i64", ":", "i8"];
    let places = [
        ("ExtensionLeaf:RecA[", "]\n"),
        ("ExtensionSingle:RecB[", "]\n  Read[a => b:i64]\n"),
        ("Read[a => b:i64]\n  + Enh:RecA[", "]\n"),
    ];
    words(ctx, "C14", "arguments", &places, &pieces, ctx.pick(4, 5));
    words(ctx, "C14", "tuples", &places[..1], &["(", ")", "1", ", ", "$0", ","], ctx.pick(7, 8));
    words(ctx, "C14", "argument-columns", &places[..1], &["_", " => ", "$0", ", ", "b", ":", "i64", "true", "(", ")"], ctx.pick(6, 6));
}

pub fn declarations(ctx: &Ctx) {
    let reg = registry();
    let pieces = ["f", "add", ":", "i64", "_", "u!", "t", "#", "@", "1", "2", " ", "\"", "-", "\n  ", "Types:", "Functions:"];
    let n = pieces.len() as u64;
    let places = [
        ("=== Extensions\nURNs:\n  @1: u\nFunctions:\n  #1 @1: ", "\n=== Plan\nRead[a => b:i64]\n"),
        ("=== Extensions\nURNs:\n  @1: u\nTypes:\n  #1 @1: ", "\n=== Plan\nRead[a => b:i64]\n"),
        ("=== Extensions\nURNs:\n  @1: u\nType Variations:\n  ", "\n=== Plan\nRead[a => b:i64]\n"),
        ("=== Extensions\nURNs:\n  @1: u\n", "\n=== Plan\n"),
    ];
    for (k, (pre, post)) in places.iter().enumerate() {
        ctx.space(&format!("words-declarations-{k}"), seq_count(n, if ctx.prop == "C18" { ctx.pick(4, 5) } else { 2 }), |i, case| {
            let body: String = seq_decode(i, n).into_iter().map(|t| pieces[t]).collect();
            stable(case, &format!("{pre}{body}{post}"), &reg);
        });
    }
}

/// Words of whole lines, each at any of a few depths.
pub fn lines(ctx: &Ctx) {
    let reg = registry();
    let pieces = [
        "Filter[true => $0]", "Read[t => a:i64]", "Read[t => ]", "Cross[_]", "Set[&UnionAll => $0]", "Root[x]", "Read:Virtual[(1),", "Read:Virtual[", "- (1)", "- (2), (3) => a:i64]", "- => a:i64]",
        "+ Enh:RecA[1]", "+ Opt:RecA[2]", "+ Opt:RecB[3]", "+ Ext:RecA[4]", "Read:Extension[a:i64]", "ExtensionLeaf:RecA[_ => a:i64]", "ExtensionSingle:RecA[_ => $0]", "",
    ];
    let all = |len: u32, name: &str, pieces: &[&str], depths: u64| {
        let n = pieces.len() as u64 * depths;
        ctx.space(name, seq_count(n, len), |i, case| {
            let mut t = String::from("=== Plan\n");
            for k in seq_decode(i, n) {
                t += &"  ".repeat(k % depths as usize);
                t += pieces[k / depths as usize];
                t.push('\n');
            }
            stable(case, &t, &reg);
        });
    };
    all(if ctx.prop == "C08" { ctx.pick(3, 4) } else { 2 }, "words-lines", &pieces, 3);
    if ctx.prop == "C08" {
        all(ctx.pick(5, 6), "words-tables", &["Read:Virtual[(1),", "Read:Virtual[", "- (1),", "- (2), (3)", "- => a:i64]", "+ Opt:RecA[2]", "Filter[true => $0]", ""], 2);
        all(ctx.pick(5, 6), "words-details", &["Filter[true => $0]", "+ Enh:RecA[1]", "+ Opt:RecB[3]", "Read[t => a:i64]", "Cross[_]"], 3);
    }
}

/// An expression is the same expression wherever expressions stand.
pub fn everywhere(ctx: &Ctx) {
    if ctx.prop != "C02" {
        return;
    }
    let reg = registry();
    let one = "  Read[a => b:i64, c:t#1]\n";
    // The place, what follows its line, and whether it takes bare references
    // and negative numbers.
    let places: [(&str, &str, &str, bool, bool); 13] = [
        ("Project[1, ", "]", one, false, true),
        ("Project[", ", 1]", one, false, true),
        ("Sort[($0, &Clustered), (", ", &AscNullsLast) => $0]", one, true, true),
        ("Join[&Inner, ", " => $0]", "  Read[a => b:i64, c:t#1]\n  Read[a => b:i64]\n", true, true),
        ("Aggregate[$0 => $0, f(", "):i64]", one, true, true),
        ("Read:Virtual[(1, ", ") => a:i64, b:i64]", "", true, true),
        ("Read:Virtual[(", ", 1) => a:i64, b:i64]", "", true, true),
        ("Fetch[limit=", " => $0]", one, true, false),
        ("Fetch[limit=1, offset=", " => $0]", one, true, false),
        ("Filter[(", ")::i8 => $0]", one, true, true),
        ("Filter[if_then(true -> $0, ", " -> 1, _ -> 2) => $0]", one, true, true),
        ("Filter[if_then(true -> ", ", _ -> 2) => $0]", one, true, true),
        ("Filter[f(1, g(", "):i64, 2):i64 => $0]", one, true, true),
    ];
    let arguments = [
        ("ExtensionLeaf:RecA[", " => a:i64]\n"),
        ("ExtensionLeaf:RecA[1, ", ", 2 => a:i64]\n"),
        ("ExtensionLeaf:RecA[a=", " => a:i64]\n"),
        ("ExtensionLeaf:RecA[(", ",) => a:i64]\n"),
        ("ExtensionLeaf:RecA[(1, ", "), 2 => a:i64]\n"),
        ("Read[a => b:i64]\n  + Opt:RecB[", "]\n"),
    ];
    let sets: [(&str, &[&str], u32); 4] = [
        (
            "any",
            &["$0", "$1", "1", "(", ")", ", ", ":", "::", "?", "i64", "f(", "if_then(", " -> ", "_", "null", "true", "#", "2", "'x'", "nullif"],
            ctx.pick(4, 5),
        ),
        ("chains", &["if_then(", "$0", " -> ", ", ", "_", ")", "true"], ctx.pick(7, 8)),
        ("calls", &["null", "true", "if_then", "nullif", "add", "f", ":", "any", "i64_i64", "#2", "@1", "()", "($0)", ":i64"], ctx.pick(4, 5)),
        ("literals", &["-", "1", ".5", "e3", "null", "true", "'2024-01-01'", ":", "i8", "fp32", "date", "boolean", "?", "t#1", "list<i64>"], ctx.pick(4, 5)),
    ];
    for (name, pieces, len) in sets {
        let n = pieces.len() as u64;
        ctx.space(&format!("everywhere-{name}"), seq_count(n, len), |i, case| {
            let w: String = seq_decode(i, n).into_iter().map(|t| pieces[t]).collect();
            let text = format!("{HEAD}Filter[{w} => $0]\n{one}");
            case.state(&text);
            let Some(r) = parse(case, &text, &reg) else { return };
            let Ok(p) = r else { return case.outcome("refused") };
            let o = OutputOptions::default();
            let Some((t, e)) = format(case, &p, &o, &reg, &text) else { return };
            // Its own way of being written.
            let line = t.lines().find(|l| l.starts_with("Filter[")).unwrap_or_default();
            let Some(c) = line.strip_prefix("Filter[").and_then(|l| l.strip_suffix(" => $0]")) else { return case.fail("shape", "no filter is written", &text) };
            if !e.is_empty() {
                return case.outcome("accepted with a complaint");
            }
            for (a, b, rest, refs, negative) in &places {
                if c.starts_with('$') && !refs || c.starts_with('-') && !negative {
                    continue;
                }
                let text = format!("{HEAD}{a}{w}{b}\n{rest}");
                case.trace();
                match parse(case, &text, &reg) {
                    None => return,
                    Some(Err(e)) => return case.fail("refused-here", &format!("{w} is an expression, and is refused here: {e}"), &text),
                    Some(Ok(p)) => {
                        let Some((t, e)) = format(case, &p, &o, &reg, &text) else { return };
                        let want = format!("{a}{c}{b}");
                        if !e.is_empty() || !t.lines().any(|l| l == want) {
                            return case.fail("other-here", &format!("{w} is written as {c} elsewhere, and here:\n{t}\n{e:?}"), &text);
                        }
                    }
                }
            }
            for (a, b) in &arguments {
                let text = format!("{HEAD}{a}{w}{b}");
                case.trace();
                match parse(case, &text, &reg) {
                    None => return,
                    Some(Err(e)) => return case.fail("refused-here", &format!("{w} is an expression, and is refused as an argument: {e}"), &text),
                    Some(Ok(_)) => {}
                }
            }
            case.outcome("accepted");
        });
    }
}

/// A type is the same type wherever types stand.
pub fn types_everywhere(ctx: &Ctx) {
    if ctx.prop != "C04" {
        return;
    }
    let reg = registry();
    let one = "  Read[a => b:i64]\n";
    let places: [(&str, &str, &str); 11] = [
        ("Read[a => b:i64, c:", "]", ""),
        ("Read[a => b:", ", c:i64]", ""),
        ("Read[a => b:list<", ">]", ""),
        ("Read[a => b:t#1<", ">]", ""),
        ("Read[a => b:t#1?<i64, ", ", string?>]", ""),
        ("Filter[($0)::", " => $0]", one),
        ("Filter[(f():i8)::?", " => $0]", one),
        ("Filter[f(1, g($0):", ", 2):i64 => $0]", one),
        ("Project[f():", ", 1]", one),
        ("Aggregate[_ => f():", ", f():i64]", one),
        ("ExtensionLeaf:RecA[_ => b:", ", c:i64]", ""),
    ];
    let sets: [(&str, &[&str], u32); 3] = [
        (
            "any",
            &["i64", "boolean", "list", "<", ">", "?", "u!", "t", "json", "#1", "@1", "#2", "precisiontimestamp", "interval_day", "3", ", ", "map", "fp32", "timestamp", "f"],
            ctx.pick(4, 5),
        ),
        ("nested", &["list", "<", ">", "?", "i64", "t#1", ", "], ctx.pick(6, 7)),
        ("names", &["i64", "s", "_", "1", "u!", "x", "json", "list", "?", "#3", "@1", " ", "interval_day", "<3>"], ctx.pick(4, 5)),
    ];
    for (name, pieces, len) in sets {
        let n = pieces.len() as u64;
        ctx.space(&format!("types-everywhere-{name}"), seq_count(n, len), |i, case| {
            let w: String = seq_decode(i, n).into_iter().map(|t| pieces[t]).collect();
            let text = format!("{HEAD}Read[a => b:{w}]\n");
            case.state(&text);
            let Some(r) = parse(case, &text, &reg) else { return };
            let Ok(p) = r else { return case.outcome("refused") };
            let o = OutputOptions::default();
            let Some((t, e)) = format(case, &p, &o, &reg, &text) else { return };
            let line = t.lines().find(|l| l.starts_with("Read[")).unwrap_or_default();
            let Some(c) = line.strip_prefix("Read[a => b:").and_then(|l| l.strip_suffix("]")) else { return case.fail("shape", "no read is written", &text) };
            // More columns than one.
            if !e.is_empty() || w.contains(", ") && !w.contains('<') {
                return case.outcome("accepted with a complaint");
            }
            for (a, b, rest) in &places {
                let text = format!("{HEAD}{a}{w}{b}\n{rest}");
                case.trace();
                match parse(case, &text, &reg) {
                    None => return,
                    Some(Err(e)) => return case.fail("refused-here", &format!("{w} is a type, and is refused here: {e}"), &text),
                    Some(Ok(p)) => {
                        let Some((t, e)) = format(case, &p, &o, &reg, &text) else { return };
                        let want = format!("{a}{c}{b}");
                        if !e.is_empty() || !t.lines().any(|l| l == want) {
                            return case.fail("other-here", &format!("{w} is written as {c} elsewhere, and here:\n{t}\n{e:?}"), &text);
                        }
                    }
                }
            }
            case.outcome("accepted");
        });
    }
}

/// A name is the same name wherever names stand.
pub fn names_everywhere(ctx: &Ctx) {
    if ctx.prop != "C05" {
        return;
    }
    let reg = registry();
    let pieces = ["a", "Z", "_", "1", "\"", "\\\\", "\\\"", "\\n", "\u{e9}", " ", "-", "null", "\\u{41}", "T", "$", ":"];
    let n = pieces.len() as u64;
    let places = [
        ("Read[t => ", ":i64]", ""),
        ("Read[t => b:i64, ", ":i64]", ""),
        ("Read[a.", " => b:i64]", ""),
        ("Read[", ".a => b:i64]", ""),
        ("Root[", "]", "  Read[t => b:i64]\n"),
        ("Root[b, ", "]", "  Read[t => b:i64, c:i64]\n"),
        ("Read:Virtual[(1) => ", ":i64]", ""),
        ("ExtensionLeaf:RecA[_ => ", ":i64]", ""),
        ("ExtensionLeaf:RecA[_ => b:i64, ", ":i64]", ""),
    ];
    ctx.space("names-everywhere", seq_count(n, ctx.pick(4, 5)), |i, case| {
        let w: String = seq_decode(i, n).into_iter().map(|t| pieces[t]).collect();
        let text = format!("{HEAD}Read[{w} => b:i64]\n");
        case.state(&text);
        let Some(r) = parse(case, &text, &reg) else { return };
        let Ok(p) = r else { return case.outcome("refused") };
        // The parts of no name, and surrounding space, are not of the name.
        if w.trim() != w || w.is_empty() || w == "_" {
            return;
        }
        let o = OutputOptions::default();
        let Some((t, e)) = format(case, &p, &o, &reg, &text) else { return };
        let line = t.lines().find(|l| l.starts_with("Read[")).unwrap_or_default();
        let Some(c) = line.strip_prefix("Read[").and_then(|l| l.strip_suffix(" => b:i64]")) else { return case.fail("shape", "no read is written", &text) };
        if !e.is_empty() {
            return case.fail("complaint", &format!("{e:?}"), &text);
        }
        for (a, b, rest) in &places {
            // There it would be a literal.
            if a.starts_with("Ext") && ["null", "true", "false"].contains(&c.trim_matches('"')) {
                continue;
            }
            let text = format!("{HEAD}{a}{w}{b}\n{rest}");
            case.trace();
            match parse(case, &text, &reg) {
                None => return,
                Some(Err(e)) => return case.fail("refused-here", &format!("{w} is a name, and is refused here: {e}"), &text),
                Some(Ok(p)) => {
                    let Some((t, e)) = format(case, &p, &o, &reg, &text) else { return };
                    let want = format!("{a}{c}{b}");
                    if !e.is_empty() || !t.lines().any(|l| l == want) {
                        return case.fail("other-here", &format!("{w} is written as {c} elsewhere, and here:\n{t}\n{e:?}"), &text);
                    }
                }
            }
        }
        case.outcome("accepted");
    });
}

/// A relation is the same relation wherever relations stand.
pub fn relations_everywhere(ctx: &Ctx) {
    if ctx.prop != "C01" {
        return;
    }
    let reg = registry();
    let one = "]\n  Read[a => b:i64, c:i64]\n";
    let two = "]\n  Read[a => b:i64]\n  Read[a => c:i64]\n";
    let kinds = [
        ("Read[", "]\n"),
        ("Filter[", one),
        ("Project[", one),
        ("Aggregate[", one),
        ("Sort[", one),
        ("Fetch[", one),
        ("Join[", two),
        ("Set[", two),
        ("Cross[", two),
        ("Read:Virtual[", "]\n"),
        ("ExtensionSingle:RecA[", one),
        ("ExtensionMulti:RecA[", two),
        ("ExtensionLeaf:RecA[", "]\n"),
    ];
    let pieces = ["$0", "$1", ", ", " => ", " +> ", " |> ", "_", "a", "b:i64", "(", ")", "&Inner", "&UnionAll", "&AscNullsLast", "limit=", "1", "true"];
    let parents = [
        ("Filter[true => $0]\n", 1, ""),
        ("Filter[true => $0]\n  + Enh:RecA[1]\n", 1, ""),
        ("Cross[$0]\n", 1, "  Read[z => z:i64]\n"),
        ("Cross[$0]\n  Read[z => z:i64]\n", 1, ""),
        ("ExtensionMulti:RecB[1 => $0]\n  Filter[true => $0]\n    Read[z => z:i64]\n", 1, "  Read[z => z:i64]\n"),
        ("Filter[true => $0]\n  Filter[true => $0]\n", 2, ""),
        ("Read[first => z:i64]\n", 0, "Read[last => z:i64]\n"),
    ];
    let n = pieces.len() as u64;
    let body = |t: &str| t.split("=== Plan\n").nth(1).map(|t| t.trim_end().to_string());
    for (k, (pre, post)) in kinds.iter().enumerate() {
        ctx.space(&format!("relations-everywhere-{k}"), seq_count(n, ctx.pick(3, 4)), |i, case| {
            let w: String = seq_decode(i, n).into_iter().map(|t| pieces[t]).collect();
            let block = format!("{pre}{w}{post}");
            let text = format!("{HEAD}{block}");
            case.state(&text);
            let Some(r) = parse(case, &text, &reg) else { return };
            let Ok(p) = r else { return case.outcome("refused") };
            let o = OutputOptions::default();
            let Some((t, e)) = format(case, &p, &o, &reg, &text) else { return };
            let Some(t) = body(&t) else { return case.fail("shape", "no plan is written", &text) };
            if !e.is_empty() {
                return case.outcome("accepted with a complaint");
            }
            let moved = |b: &str, d: usize| -> String { b.lines().map(|l| format!("{}{l}\n", "  ".repeat(d))).collect() };
            for (above, depth, below) in &parents {
                let text = format!("{HEAD}{above}{}{below}", moved(&block, *depth));
                case.trace();
                match parse(case, &text, &reg) {
                    None => return,
                    Some(Err(e)) => return case.fail("refused-here", &format!("it is a relation, and is refused here: {e}"), &text),
                    Some(Ok(p)) => {
                        let Some((got, e)) = format(case, &p, &o, &reg, &text) else { return };
                        // Without a column for its parent.
                        if got.contains("!{Emitted}") {
                            continue;
                        }
                        // Relations at the top have an empty line between them.
                        let want = if *depth == 0 { [*above, &format!("{t}\n"), *below].join("\n") } else { format!("{above}{}{below}", moved(&t, *depth)) };
                        if !e.is_empty() || body(&got).as_deref() != Some(want.trim_end()) {
                            return case.fail("other-here", &format!("it is written as\n{t}\nelsewhere, and here:\n{got}\n{e:?}"), &text);
                        }
                    }
                }
            }
            case.outcome("accepted");
        });
    }
}

/// Every text one edit away from a document of each construct.
pub fn edits(ctx: &Ctx) {
    if ctx.prop != "C01" {
        return;
    }
    let reg = registry();
    let tok = [
        "", "\n", " ", "  ", "$", "$0", "(", ")", "[", "]", "'", "\"", "\\", ",", ", ", ":", "0", "1", "x", "_", "-", "\u{e9}", "?", "<", ">", "&", "#", "@", "=", ".", "e", "\r",
        "null", "i8", " => ", "+",
    ];
    let mut all: Vec<(usize, usize, String)> = vec![];
    for (d, (_, doc)) in crate::corpus::docs().into_iter().chain(crate::corpus::long_docs()).enumerate() {
        let t = doc.text(&crate::model::Opts::default());
        // The declarations are the same in most of them.
        let from = if d < 3 { 0 } else { t.find("=== Plan").unwrap_or(0) };
        all.push((from, t.len(), t));
    }
    let starts: Vec<(usize, usize)> = all
        .iter()
        .enumerate()
        .flat_map(|(d, (from, _, t))| t.char_indices().filter(move |(p, _)| p >= from).map(move |(p, _)| (d, p)))
        .collect();
    let stride = ctx.pick(3, 1);
    ctx.space("edited-documents", starts.len() as u64 * tok.len() as u64 * 2, |i, case| {
        let mut r = Radix(i);
        let insert = r.take(2) == 0;
        let k = r.take(tok.len());
        let (d, p) = starts[r.0 as usize];
        // In the quick check, a third of the edits, spread over all places.
        if (p + k) % stride != 0 {
            return;
        }
        let text = &all[d].2;
        let rest = &text[p..];
        let skip = if insert { 0 } else { rest.chars().next().map(|c| c.len_utf8()).unwrap_or(0) };
        stable(case, &format!("{}{}{}", &text[..p], tok[k], &rest[skip..]), &reg);
    });
}
