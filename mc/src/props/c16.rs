//! C16: addendum lines attach to the right relation under the documented rules.
use crate::common::{formats_to, parses_to, rejected, round_trip};
use crate::engine::{Case, Ctx, Radix, seq_count, seq_decode};
use crate::ext::registry;
use crate::model::*;
use crate::pools::{doc1, read};
use substrait_explain::extensions::ExtensionRegistry;

/// Lines of the enumerated documents.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum L {
    Root,
    Read,
    ReadExt,
    Virtual,
    Filter,
    Cross,
    Single,
    Leaf,
    Enh,
    Opt,
    Ext,
}

use L::*;

fn is_addendum(l: L) -> bool {
    matches!(l, Enh | Opt | Ext)
}

fn pay(i: usize) -> Pay {
    Pay {
        id: i % 2,
        args: Args {
            pos: vec![Arg::Int(i as i64)],
            ..Args::default()
        },
    }
}

fn ext_pay(i: usize) -> Pay {
    let mut p = pay(i);
    p.args.cols = vec![Col::Named("c".into(), simple("i64"))];
    p
}

fn line(l: L, i: usize, depth: usize) -> String {
    let name = crate::ext::NAMES[i % 2];
    match l {
        Root => format!("Root[r{i}]"),
        Read => format!("Read[t{i} => c:i64]"),
        ReadExt => format!("Read:Extension[c{i}:i64]"),
        Virtual => format!("Read:Virtual[\n{0}- ({i}),\n{0}- (1)\n{0}- => c:i64]", "  ".repeat(depth + 1)),
        Filter => format!("Filter[${i} => $0]"),
        Cross => "Cross[$0]".into(),
        Single => format!("ExtensionSingle:{name}[{i} => c:i64]"),
        Leaf => format!("ExtensionLeaf:{name}[{i} => c:i64]"),
        Enh => format!("+ Enh:{name}[{i}]"),
        Opt => format!("+ Opt:{name}[{i}]"),
        Ext => format!("+ Ext:{name}[{i}]"),
    }
}

struct Node {
    l: L,
    i: usize,
    enh: Vec<usize>,
    opt: Vec<usize>,
    ext: Vec<usize>,
    kids: Vec<Node>,
}

/// The document the lines spell, or why they spell none.
fn forest(lines: &[(usize, L)]) -> Result<Vec<Node>, &'static str> {
    let mut done: Vec<Node> = vec![];
    // The open relations, outermost first; an addendum opens nothing.
    let mut open: Vec<Node> = vec![];
    fn close(open: &mut Vec<Node>, done: &mut Vec<Node>, to: usize) -> Result<(), &'static str> {
        while open.len() > to {
            let Some(n) = open.pop() else { break };
            let kids = match n.l {
                Root | Filter | Single => n.kids.len() == 1,
                Cross => n.kids.len() == 2,
                _ => n.kids.is_empty(),
            };
            if !kids {
                return Err("wrong number of inputs");
            }
            if n.ext.len() != usize::from(n.l == ReadExt) {
                return Err("an extension read has exactly one + Ext line, and nothing else has one");
            }
            match open.last_mut() {
                Some(p) => p.kids.push(n),
                None => done.push(n),
            }
        }
        Ok(())
    }
    let mut last_addendum: Option<usize> = None;
    for (i, (d, l)) in lines.iter().enumerate() {
        if let Some(a) = last_addendum
            && *d > a
        {
            return Err("nothing can stand below an addendum");
        }
        if *d > open.len() {
            return Err("a level is skipped");
        }
        close(&mut open, &mut done, *d)?;
        if is_addendum(*l) {
            last_addendum = Some(*d);
            let Some(p) = open.last_mut() else { return Err("an addendum at the top") };
            if matches!(p.l, Root | Single | Leaf) {
                return Err("this relation has no addenda");
            }
            if !p.kids.is_empty() {
                return Err("an addendum after an input");
            }
            match l {
                Enh if !p.enh.is_empty() => return Err("a second enhancement"),
                Enh => p.enh.push(i),
                Opt => p.opt.push(i),
                _ => p.ext.push(i),
            }
            continue;
        }
        last_addendum = None;
        if *l == Root && *d > 0 {
            return Err("a Root below the top");
        }
        open.push(Node {
            l: *l,
            i,
            enh: vec![],
            opt: vec![],
            ext: vec![],
            kids: vec![],
        });
    }
    close(&mut open, &mut done, 0)?;
    Ok(done)
}

fn to_rel(n: &Node) -> Rel {
    let i = n.i;
    let c = vec![("c".to_string(), simple("i64"))];
    let op = match n.l {
        Read => Op::Read(vec![format!("t{i}")], c),
        ReadExt => Op::ReadExt(vec![(format!("c{i}"), simple("i64"))], pay(n.ext[0])),
        Virtual => Op::Virtual {
            rows: vec![vec![int(i as i64)], vec![int(1)]],
            filter: None,
            cols: c,
        },
        Filter => Op::Filter(Ex::Ref(i as i32)),
        Cross => Op::Cross,
        Single => Op::ExtSingle(ext_pay(i)),
        _ => Op::ExtLeaf(ext_pay(i)),
    };
    let mut r = rel(op, n.kids.iter().map(to_rel).collect());
    if n.l == Cross {
        r.emit = Some(vec![0]);
    }
    r.enh = n.enh.first().map(|i| pay(*i));
    r.opts = n.opt.iter().map(|i| pay(*i)).collect();
    r
}

fn doc_of(f: &[Node]) -> Doc {
    Doc {
        tops: f
            .iter()
            .map(|n| if n.l == Root { Top::Root(vec![format!("r{}", n.i)], to_rel(&n.kids[0])) } else { Top::Rel(to_rel(n)) })
            .collect(),
        ..Doc::default()
    }
}

pub fn check(case: &mut Case, lines: &[(usize, L)], reg: &ExtensionRegistry) {
    let mut t = String::from("=== Plan\n");
    for (i, (d, l)) in lines.iter().enumerate() {
        t.push_str(&format!("{}{}\n", "  ".repeat(*d), line(*l, i, *d)));
    }
    match forest(lines) {
        Err(why) => {
            rejected(case, &t, why, reg);
        }
        Ok(f) => {
            case.state(&t);
            let d = doc_of(&f);
            parses_to(case, &t, &d.proto(), reg);
            let o = Opts {
                threshold: 2,
                ..Opts::default()
            };
            formats_to(case, &d.proto(), &d.text(&o), &o, reg);
            case.outcome("accepted");
        }
    }
}

/// Every sequence of lines of this length, at depths up to one more than the
/// line before allows.
fn sequences(ctx: &Ctx, name: &str, letters: &[L], len: u32, reg: &ExtensionRegistry) {
    // Depths are encoded relative to the line before: 0 is the top, then up.
    let per = letters.len() as u64 * 4;
    ctx.space(name, letters.len() as u64 * per.pow(len - 1), |i, case| {
        let mut r = Radix(i);
        let mut lines: Vec<(usize, L)> = vec![(0, *r.pick(letters))];
        for k in 1..len as usize {
            let (l, d) = (*r.pick(letters), r.take(4));
            let max = lines[k - 1].0 + if is_addendum(l) { 2 } else { 1 };
            if d > max {
                return;
            }
            lines.push((d, l));
        }
        check(case, &lines, reg);
    });
}

/// Every operator, to hang addenda on.
fn operators() -> Vec<(&'static str, Rel)> {
    let t = || lit(V::Bool(true));
    let ten = || rel(Op::ReadExt(vec![("c".into(), simple("i64"))], pay(8)), vec![]);
    vec![
        ("read", read(2)),
        ("virtual", rel(Op::Virtual { rows: vec![vec![int(1)]], filter: None, cols: vec![("c".into(), simple("i64"))] }, vec![])),
        (
            "virtual-many",
            rel(Op::Virtual { rows: (0..4).map(|i| vec![int(i)]).collect(), filter: Some(t()), cols: vec![("c".into(), simple("i64"))] }, vec![]),
        ),
        ("read-extension", ten()),
        ("filter", rel(Op::Filter(t()), vec![read(1)])),
        ("project", rel(Op::Project(vec![int(1)]), vec![read(1)])),
        ("aggregate", rel(Op::Agg(vec![Ex::Ref(0)], vec![vec![0]], vec![(3, vec![], simple("i64"))]), vec![read(1)])),
        ("sort", rel(Op::Sort(vec![(Ex::Ref(0), 0)]), vec![read(1)])),
        ("fetch", rel(Op::Fetch(Some(int(1)), None), vec![read(1)])),
        ("join", rel(Op::Join(0, t(), None), vec![read(1), read(2)])),
        ("set", rel(Op::Set(7), vec![read(1), read(1), read(1)])),
        ("cross", rel(Op::Cross, vec![read(1), read(2)])),
    ]
}

/// The document with the operator's addenda in the order given.
fn with_addenda(base: &Rel, list: &[L], outer: usize) -> (Option<Doc>, String) {
    let is_ext = matches!(base.op, Op::ReadExt(..));
    let mut r = base.clone();
    let mut text = vec![];
    let mut good = true;
    let mut exts = 0;
    for (i, l) in list.iter().enumerate() {
        text.push(line(*l, i, 0));
        match l {
            Enh => {
                good &= r.enh.is_none();
                r.enh = Some(pay(i));
            }
            Opt => r.opts.push(pay(i)),
            _ => {
                exts += 1;
                if let Op::ReadExt(c, _) = &r.op {
                    r.op = Op::ReadExt(c.clone(), pay(i));
                }
            }
        }
    }
    good &= exts == usize::from(is_ext);
    let wrap = |r: Rel| match outer {
        0 => doc1(r),
        1 => doc1(rel(Op::Filter(lit(V::Bool(true))), vec![r])),
        2 => doc1(rel(Op::Cross, vec![r, read(1)])),
        _ => {
            let mut d = doc1(read(1));
            d.tops.push(Top::Root(vec!["r".into()], rel(Op::Cross, vec![read(1), r])));
            d
        }
    };
    // The text without any addenda, with these below the operator's line.
    let plain = wrap(base.clone());
    let mark = W {
        env: &plain.env,
        o: &Opts::default(),
    };
    let mut own = vec![];
    mark.rel(base, 0, &mut own);
    let head = &own[0].1;
    let addenda_at = own.iter().skip(1).take_while(|(d, s)| *d == 1 && s.starts_with("- ")).count();
    let depth = [0, 1, 1, 2][outer];
    let mut out: Vec<String> = vec![];
    let mut lines = plain.text(&Opts::default()).lines().map(str::to_string).collect::<Vec<_>>().into_iter().peekable();
    let mut placed = false;
    while let Some(l) = lines.next() {
        // The extension line of the plain text is one of those to be placed.
        if l.trim_start().starts_with("+ ") {
            continue;
        }
        let here = !placed && l == format!("{}{head}", "  ".repeat(depth));
        out.push(l);
        if here {
            placed = true;
            for _ in 0..addenda_at {
                out.extend(lines.next());
            }
            out.extend(text.iter().map(|t| format!("{}{t}", "  ".repeat(depth + 1))));
        }
    }
    assert!(placed, "operator line not found");
    (good.then(|| wrap(r)), out.join("\n") + "\n")
}

pub fn run(ctx: &Ctx) {
    let reg = registry();
    let all = [Root, Read, ReadExt, Virtual, Filter, Cross, Single, Leaf, Enh, Opt, Ext];
    let core = [Read, ReadExt, Filter, Single, Enh, Opt, Ext];
    let tiny = [Read, ReadExt, Filter, Enh, Opt, Ext];
    for len in 1..=ctx.pick(4, 5) {
        sequences(ctx, &format!("all-{len}"), &all, len, &reg);
    }
    sequences(ctx, "core-5", &core, 5, &reg);
    if !ctx.quick() {
        sequences(ctx, "tiny-6", &tiny, 6, &reg);
    }
    // A read and a join of two, with every list of addenda on each.
    let marks = [Enh, Opt, Ext];
    let n = seq_count(3, 3);
    crate::sweeps::run(ctx, crate::sweeps::ADDENDA, ctx.pick(150, 400), ctx.pick(1025, 4097), &reg);
    ctx.space("two-levels", n * n * n * 2, |i, case| {
        let mut r = Radix(i);
        let ext = r.take(2) == 1;
        let mut lines: Vec<(usize, L)> = vec![(0, Cross)];
        let put = |d: usize, k: u64, lines: &mut Vec<(usize, L)>| lines.extend(seq_decode(k, 3).into_iter().map(|x| (d, marks[x])));
        let (a, b, c) = (r.take(n as usize) as u64, r.take(n as usize) as u64, r.take(n as usize) as u64);
        put(1, a, &mut lines);
        lines.push((1, if ext { ReadExt } else { Read }));
        put(2, b, &mut lines);
        lines.push((1, Filter));
        put(2, c, &mut lines);
        lines.push((2, Read));
        check(case, &lines, &reg);
    });
    // Equal addenda on one relation and on its neighbours.
    ctx.space("equal-addenda", seq_count(3, ctx.pick(5, 7)) * 4 * 4, |i, case| {
        let mut r = Radix(i);
        let (e, kind) = (r.take(4), r.take(4));
        let opts: Vec<Pay> = seq_decode(r.0, 3).into_iter().map(pay).collect();
        let mut x = match kind {
            0 => read(1),
            1 => rel(Op::ReadExt(vec![("c".into(), simple("i64"))], pay(0)), vec![]),
            2 => rel(Op::Filter(Ex::Ref(0)), vec![read(1)]),
            _ => rel(Op::Cross, vec![read(1), read(1)]),
        };
        x.enh = (e < 3).then(|| pay(e));
        x.opts = opts.clone();
        let mut y = read(1);
        y.enh = x.enh.clone();
        y.opts = opts.clone();
        let mut up = rel(Op::Cross, vec![x.clone(), y]);
        up.enh = x.enh.clone();
        up.opts = opts;
        round_trip(case, &doc1(x), &reg);
        round_trip(case, &doc1(up), &reg);
    });
    // Every operator with every list of addenda, in every surrounding.
    let ops = operators();
    let n = seq_count(3, ctx.pick(4, 6));
    ctx.space("operators", n * ops.len() as u64 * 4, |i, case| {
        let mut r = Radix(i);
        let (op, outer) = (r.take(ops.len()), r.take(4));
        let list: Vec<L> = seq_decode(r.0, 3).into_iter().map(|x| marks[x]).collect();
        let (doc, text) = with_addenda(&ops[op].1, &list, outer);
        match doc {
            None => {
                rejected(case, &text, "these addenda are not allowed together", &reg);
            }
            Some(d) => {
                case.state(&text);
                parses_to(case, &text, &d.proto(), &reg);
                // Written back in the canonical order.
                round_trip(case, &d, &reg);
            }
        }
    });
    // Below the top, below Root, below every extension relation, and in other
    // sections.
    let wrong = [
        "=== Plan\n@\n",
        "=== Plan\n  @\nRead[t => c:i64]\n",
        "=== Plan\nRead[t => c:i64]\n@\n",
        "=== Plan\nRoot[r]\n  @\n  Read[t => c:i64]\n",
        "=== Plan\nRoot[r]\n  Read[t => c:i64]\n  @\n",
        "=== Plan\nExtensionLeaf:RecA[1 => c:i64]\n  @\n",
        "=== Plan\nExtensionSingle:RecA[1 => c:i64]\n  @\n  Read[t => c:i64]\n",
        "=== Plan\nExtensionMulti:RecA[1 => c:i64]\n  @\n  Read[t => c:i64]\n",
        "=== Plan\nFilter[true => $0]\n  Read[t => c:i64]\n  @\n",
        "=== Plan\nFilter[true => $0]\n  Read[t => c:i64]\n      @\n",
        "=== Plan\nRead[t => c:i64]\n   @\n",
        "=== Plan\nRead[t => c:i64]\n\t@\n",
        "=== Plan\nRead[t => c:i64] @\n  @\n  x\n",
        "=== Version 1.0.0\n  @\n=== Plan\nRead[t => c:i64]\n",
        "=== Extensions\n  @\n=== Plan\nRead[t => c:i64]\n",
        "=== Extensions\nURNs:\n  @\n=== Plan\nRead[t => c:i64]\n",
        "@\n=== Plan\nRead[t => c:i64]\n",
    ];
    ctx.space("nowhere", wrong.len() as u64 * 3, |i, case| {
        let mut r = Radix(i);
        let w = r.pick(&wrong);
        let l = *r.pick(&marks);
        rejected(case, &w.replace('@', &line(l, 1, 0)), "an addendum cannot stand there", &reg);
    });
    // Spellings.
    let bad = [
        "+Enh RecA[1]", "+ Enh RecA[1]", "+ enh:RecA[1]", "+ Foo:RecA[1]", "+ :RecA[1]", "+ Enh:[1]", "+ Enh:RecA", "+ Enh:RecA[1", "+ Enh:RecA 1]", "Enh:RecA[1]",
        "- Enh:RecA[1]", "++ Enh:RecA[1]", "+ Enh:RecA[1 => c:i64]", "+ Enh:Nobody[1]", "+ Opt:Nobody[1]", "+ Ext:Nobody[1]", "+", "+ ", "+ Enh: RecA[1]",
    ];
    ctx.space("spelling", bad.len() as u64 * 2, |i, case| {
        let mut r = Radix(i);
        let b = r.pick(&bad);
        let head = ["Read[t => c:i64]", "Read:Extension[c:i64]"][r.take(2)];
        rejected(case, &format!("=== Plan\n{head}\n  {b}\n"), "that is not an addendum", &reg);
    });
}
