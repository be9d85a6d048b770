//! C20: the command line reports success and failure truthfully.
use std::fs::{self, File};
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use crate::common::{bytes, diff};
use crate::corpus::docs;
use crate::engine::{Case, Ctx, Radix, guarded};
use crate::ext::registry;
use crate::model::*;
use prost::Message;
use substrait::proto::Plan;
use substrait_explain::cli::{Cli, Commands, Format, Outcome};
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, Explainable, ExtensionArgs, ExtensionContext, ExtensionError, ExtensionRegistry,
};
use substrait_explain::{OutputOptions, Visibility, format_with_registry, parse_with_registry};

const FORMATS: [Format; 4] = [Format::Text, Format::Json, Format::Yaml, Format::Protobuf];

/// File names and the format they stand for.
const FILES: [(&str, Option<usize>); 26] = [
    ("-", None),
    ("a.substrait", Some(0)),
    ("a.txt", Some(0)),
    ("a.json", Some(1)),
    ("a.yaml", Some(2)),
    ("a.yml", Some(2)),
    ("a.pb", Some(3)),
    ("a.proto", Some(3)),
    ("a.protobuf", Some(3)),
    ("a.TXT", Some(0)),
    ("a.Json", Some(1)),
    ("a.YML", Some(2)),
    ("a.Pb", Some(3)),
    ("dir.json/a.txt", Some(0)),
    ("a.json.txt", Some(0)),
    ("a.txt.json", Some(1)),
    ("dir.json/a", None),
    ("a", None),
    ("a.", None),
    ("a.text", None),
    ("a.jsonx", None),
    ("a.json ", None),
    ("json", None),
    (".json", None),
    ("", None),
    ("a.bin", None),
];

/// Spellings of a format option.
const NAMES: [(&str, Option<usize>); 18] = [
    ("text", Some(0)),
    ("json", Some(1)),
    ("yaml", Some(2)),
    ("protobuf", Some(3)),
    ("proto", Some(3)),
    ("pb", Some(3)),
    ("TEXT", Some(0)),
    ("Json", Some(1)),
    ("YamL", Some(2)),
    ("ProtoBuf", Some(3)),
    ("PB", Some(3)),
    ("", None),
    ("txt", None),
    ("yml", None),
    ("text ", None),
    ("jsonl", None),
    ("substrait", None),
    ("xml", None),
];

/// Read from its arguments without complaint, and never written back.
struct Mute;

impl AnyConvertible for Mute {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), vec![]))
    }
    fn from_any<'a>(_: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Ok(Mute)
    }
    fn type_url() -> String {
        "type.googleapis.com/mc.Mute".into()
    }
}

impl Explainable for Mute {
    fn name() -> &'static str {
        "Mute"
    }
    fn from_args(_: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        Ok(Mute)
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        Err(ExtensionError::InvalidArgument("nothing to say".into()))
    }
}

struct Input {
    name: String,
    bytes: Vec<u8>,
}

fn faulty() -> Plan {
    // Functions that are declared nowhere, and a payload nobody registered.
    let mut p = docs().into_iter().find(|(n, _)| *n == "tree").expect("tree").1.proto();
    p.extensions.clear();
    p
}

/// Good, faulty and malformed inputs of every kind.
fn inputs(reg: &ExtensionRegistry) -> Vec<Input> {
    let mut v = vec![];
    let mut add = |name: String, bytes: Vec<u8>| v.push(Input { name, bytes });
    for (n, d) in docs() {
        if !["tree", "literals", "addenda", "version", "empty", "virtual-many"].contains(&n) {
            continue;
        }
        let p = d.proto();
        add(format!("{n}.txt"), d.text(&Opts::default()).into_bytes());
        add(format!("{n}.json"), serde_json::to_vec(&p).expect("json"));
        add(format!("{n}.yaml"), serde_yaml::to_string(&p).expect("yaml").into_bytes());
        add(format!("{n}.pb"), p.encode_to_vec());
    }
    // So short and plain that nothing of it is written before the end.
    let tiny = Plan {
        version: Some(substrait::proto::Version { minor_number: 5, patch_number: 1, ..Default::default() }),
        ..Plan::default()
    };
    add("tiny.txt".into(), b"=== Version 0.5.1\n=== Plan\n".to_vec());
    add("tiny.pb".into(), tiny.encode_to_vec());
    let p = faulty();
    add("faulty.txt".into(), format_with_registry(&p, &OutputOptions::default(), reg).0.into_bytes());
    add("faulty.json".into(), serde_json::to_vec(&p).expect("json"));
    add("faulty.yaml".into(), serde_yaml::to_string(&p).expect("yaml").into_bytes());
    add("faulty.pb".into(), p.encode_to_vec());
    // One complaint, and no mark of it in the text.
    let breaks = Plan {
        version: Some(substrait::proto::Version { minor_number: 5, producer: "a\nb".into(), ..Default::default() }),
        ..Plan::default()
    };
    add("breaks.json".into(), serde_json::to_vec(&breaks).expect("json"));
    add("breaks.pb".into(), breaks.encode_to_vec());
    // Text that can be read, by those who know the extension, and not be written again.
    for k in 1..4 {
        let t = format!("=== Plan\n{}", "ExtensionLeaf:Mute[]\n".repeat(k));
        add(format!("mute-{k}.txt"), t.into_bytes());
    }
    add("quoted.txt".into(), "=== Plan\nRoot[\"a b\"]\n  Filter[equal:any_any($0, 'x \u{e9}y':string):boolean => $0]\n    Read[\"c\u{30c6}d\" => e:string?]\n".replace("equal:any_any($0, 'x \u{e9}y':string):boolean", "if_then(true -> $0, _ -> 'x \u{e9}y')").into_bytes());
    let good = p.encode_to_vec();
    for (n, b) in [
        ("garbage", b"\x00\x01\x02 nonsense [".to_vec()),
        ("latin1", b"=== Plan\nRead[caf\xe9 => ]\n".to_vec()),
        ("truncated.txt", b"=== Plan\nRead[t => a:i6".to_vec()),
        ("truncated.json", b"{\"relations\": [".to_vec()),
        ("truncated.yaml", b"relations: [".to_vec()),
        ("truncated.pb", good[..good.len() - 3].to_vec()),
        ("other.json", b"{\"relations\": 7}".to_vec()),
        ("unknown.json", b"{\"relation\": []}".to_vec()),
        ("null.json", b"null".to_vec()),
        ("array.json", b"[]".to_vec()),
        ("two.json", b"{} {}".to_vec()),
        ("blank", b"\n\n".to_vec()),
    ] {
        add(n.into(), b);
    }
    v
}

/// What reading these bytes as that format gives, without the command line.
fn decode(f: usize, b: &[u8], reg: &ExtensionRegistry) -> Result<Plan, String> {
    let text = || std::str::from_utf8(b).map_err(|e| e.to_string());
    match f {
        0 => parse_with_registry(text()?, reg).map_err(|e| e.to_string()),
        1 => serde_json::from_str(text()?).map_err(|e| e.to_string()),
        2 => serde_yaml::from_str(text()?).map_err(|e| e.to_string()),
        _ => Plan::decode(b).map_err(|e| e.to_string()),
    }
}

/// What a run has to do: fail with nothing to show, or write this.
enum Want {
    Fail,
    Text(String, Vec<String>),
    Holds(usize, Plan),
}

fn want(from: Option<usize>, to: Option<usize>, literal_types: bool, input: &[u8], reg: &ExtensionRegistry) -> Want {
    let (Some(from), Some(to)) = (from, to) else { return Want::Fail };
    let Ok(p) = decode(from, input, reg) else { return Want::Fail };
    if to != 0 {
        return Want::Holds(to, p);
    }
    let o = OutputOptions {
        literal_types: if literal_types { Visibility::Always } else { OutputOptions::default().literal_types },
        ..OutputOptions::default()
    };
    let (t, e) = format_with_registry(&p, &o, reg);
    Want::Text(t, e.iter().map(|e| e.to_string()).collect())
}

fn wrong_output(w: &Want, out: &[u8], reg: &ExtensionRegistry) -> Option<String> {
    match w {
        Want::Fail => (!out.is_empty()).then(|| "something was written although the run failed".into()),
        Want::Text(t, _) => (out != t.as_bytes()).then(|| diff(&String::from_utf8_lossy(out), t)),
        Want::Holds(f, p) => match decode(*f, out, reg) {
            Ok(q) if bytes(&q) == bytes(p) => None,
            Ok(q) => Some(diff(&format!("{q:?}"), &format!("{p:?}"))),
            Err(e) => Some(format!("unreadable output: {e}")),
        },
    }
}

fn cli(convert: bool, files: (&str, &str), formats: (Option<usize>, Option<usize>), types: bool, verbose: bool) -> Cli {
    let command = if convert {
        Commands::Convert {
            input: files.0.into(),
            output: files.1.into(),
            from: formats.0.map(|f| FORMATS[f].clone()),
            to: formats.1.map(|f| FORMATS[f].clone()),
            show_literal_types: types,
            verbose,
        }
    } else {
        Commands::Validate {
            input: files.0.into(),
            output: files.1.into(),
            verbose,
        }
    };
    Cli { command }
}

/// Compare a finished run with what it had to do.
fn judge(case: &mut Case, w: &Want, got: &Result<Outcome, String>, out: &[u8], input: &str, reg: &ExtensionRegistry) {
    case.trace();
    let bad = match (w, got) {
        (Want::Fail, Err(e)) if e.is_empty() => Some("it failed without a reason".to_string()),
        (Want::Fail, Err(_)) => None,
        (Want::Fail, Ok(o)) => Some(format!("it should fail, but: {o:?}")),
        (_, Err(e)) => Some(format!("it should work, but: {e}")),
        (Want::Holds(..), Ok(Outcome::Success)) => None,
        (Want::Text(_, e), Ok(Outcome::Success)) if e.is_empty() => None,
        (Want::Text(_, e), Ok(Outcome::HadFormattingIssues(x))) if !e.is_empty() && *e == x.iter().map(|e| e.to_string()).collect::<Vec<_>>() => None,
        (_, Ok(o)) => Some(format!("wrong outcome {o:?}")),
    };
    if let Some(b) = bad {
        return case.fail("outcome", &b, input);
    }
    if let Some(b) = wrong_output(w, out, reg) {
        return case.fail("output", &b, input);
    }
    case.outcome(match w {
        Want::Fail => "failed",
        Want::Text(_, e) if !e.is_empty() => "issues",
        _ => "succeeded",
    });
}

fn run_io(c: &Cli, r: impl Read, w: impl Write, reg: &ExtensionRegistry) -> Result<Result<Outcome, String>, String> {
    guarded(|| c.run_with_io(r, w, reg).map_err(|e| format!("{e:?}")))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Error,
    Interrupted,
    /// Reads or writes one byte at a time.
    Slow,
    /// A write that takes nothing.
    Zero,
    /// An error when flushing.
    Flush,
}

/// A reader or writer with a fault after some bytes.
struct Bad<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    at: usize,
    fault: Fault,
    fired: bool,
    pos: usize,
}

impl<'a> Bad<'a> {
    fn new(data: &'a [u8], fault: Fault, at: usize) -> Self {
        Bad { data, out: vec![], at, fault, fired: false, pos: 0 }
    }
    /// How much may pass before the fault.
    fn room(&mut self) -> io::Result<usize> {
        if self.fault == Fault::Slow {
            return Ok(1);
        }
        if matches!(self.fault, Fault::None | Fault::Flush) || self.pos < self.at {
            return Ok(if self.pos < self.at { self.at - self.pos } else { usize::MAX });
        }
        match self.fault {
            Fault::Interrupted if !self.fired => {
                self.fired = true;
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            Fault::Error => {
                self.fired = true;
                Err(io::Error::other("the disk is on fire"))
            }
            Fault::Zero => {
                self.fired = true;
                Ok(0)
            }
            _ => Ok(usize::MAX),
        }
    }
}

impl Read for Bad<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.room()?.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for Bad<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.room()?.min(buf.len());
        self.out.extend(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fault == Fault::Flush {
            self.fired = true;
            return Err(io::Error::other("cannot flush"));
        }
        Ok(())
    }
}

// The program itself.

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn binary() -> Option<PathBuf> {
    let me = std::env::current_exe().ok()?;
    let b = me.with_file_name("substrait-explain");
    b.exists().then_some(b)
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

fn spawn(dir: &Path, args: &[String], stdin: &[u8], stdout: Option<File>) -> io::Result<Ran> {
    let bin = binary().ok_or_else(|| io::Error::other("no program"))?;
    let mut c = Command::new(bin);
    c.current_dir(dir).args(args).stdin(Stdio::piped()).stderr(Stdio::piped());
    c.env_remove("RUST_BACKTRACE").env_remove("RUST_LIB_BACKTRACE");
    match stdout {
        Some(f) => c.stdout(f),
        None => c.stdout(Stdio::piped()),
    };
    let mut child = c.spawn()?;
    let input = child.stdin.take();
    let o = std::thread::scope(|s| {
        s.spawn(|| {
            if let Some(mut i) = input {
                // The program may refuse before it reads.
                let _ = i.write_all(stdin);
            }
        });
        child.wait_with_output()
    })?;
    Ok(Ran {
        code: o.status.code(),
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    })
}

/// Exit status, messages and output of a finished program.
fn judge_run(case: &mut Case, w: &Want, r: &Ran, out: &[u8], verbose: bool, input: &str, reg: &ExtensionRegistry) {
    case.trace();
    let code = r.code.unwrap_or(-1);
    let ok = match w {
        Want::Fail => false,
        Want::Text(_, e) => e.is_empty(),
        Want::Holds(..) => true,
    };
    if (code == 0) != ok || code < 0 || code == 101 {
        return case.fail("status", &format!("exit status {code}, messages: {}", r.err), input);
    }
    if !ok && r.err.trim().is_empty() {
        return case.fail("silent", "it failed without a word", input);
    }
    if ok && !verbose && !r.err.is_empty() {
        return case.fail("noise", &format!("it succeeded, saying: {}", r.err), input);
    }
    if let Want::Text(_, e) = w {
        for e in e {
            if !e.lines().all(|l| r.err.contains(l)) {
                return case.fail("unlisted", &format!("{e} is not among the messages: {}", r.err), input);
            }
        }
    }
    if let Some(b) = wrong_output(w, out, reg) {
        return case.fail("output", &b, input);
    }
    case.outcome(if ok { "succeeded" } else { "failed" });
}

pub fn run(ctx: &Ctx) {
    let mut reg = registry();
    reg.register_relation::<Mute>().expect("a new name");
    let ins = inputs(&reg);
    // Which format is used: every option and name, in and out.
    let opts: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(2), Some(3)];
    let n = (25 * FILES.len() * FILES.len() * 3) as u64;
    ctx.space("resolution", n, |i, case| {
        let mut r = Radix(i);
        let (f, t) = (*r.pick(&opts), *r.pick(&opts));
        let (a, b) = (*r.pick(&FILES), *r.pick(&FILES));
        let pick = ["version.txt", "version.json", "version.pb"][r.take(3)];
        let inp = ins.iter().find(|x| x.name == pick).expect("input");
        let w = want(f.or(a.1), t.or(b.1), false, &inp.bytes, &reg);
        let input = format!("convert {:?} from {f:?} {a:?} to {t:?} {b:?}", inp.name);
        case.state(&input);
        case.step(1);
        let mut out = vec![];
        match run_io(&cli(true, (a.0, b.0), (f, t), false, false), inp.bytes.as_slice(), &mut out, &reg) {
            Ok(got) => judge(case, &w, &got, &out, &input, &reg),
            Err(p) => case.fail("panic", &p, &input),
        }
    });
    ctx.space("names", (NAMES.len() + FILES.len()) as u64, |i, case| {
        let i = i as usize;
        case.step(1);
        case.trace();
        let (what, got, want) = if i < NAMES.len() {
            (NAMES[i].0, NAMES[i].0.parse::<Format>().ok(), NAMES[i].1)
        } else {
            let f = FILES[i - NAMES.len()];
            (f.0, Format::from_extension(f.0), f.1)
        };
        case.state(what);
        if got != want.map(|f| FORMATS[f].clone()) {
            case.fail("format", &format!("{got:?}"), what);
        }
    });
    // Every name or extension one edit away from a known one.
    let exts = [("substrait", 0), ("txt", 0), ("json", 1), ("yaml", 2), ("yml", 2), ("pb", 3), ("proto", 3), ("protobuf", 3)];
    let opts = [("text", 0), ("json", 1), ("yaml", 2), ("protobuf", 3), ("proto", 3), ("pb", 3)];
    let known = |list: &[(&str, usize)], n: &str| list.iter().find(|x| x.0 == n.to_ascii_lowercase()).map(|x| x.1);
    let mut near: Vec<(bool, String)> = vec![];
    for (ext, list) in [(true, &exts[..]), (false, &opts[..])] {
        for (n, _) in list {
            for at in 0..=n.len() {
                let (a, b) = n.split_at(at);
                for c in (0x20u8..0x7f).map(char::from).chain(['\t', '\n', '\u{e9}', '\u{a0}']) {
                    near.push((ext, format!("{a}{c}{b}")));
                    if !b.is_empty() {
                        near.push((ext, format!("{a}{c}{}", &b[1..])));
                    }
                }
                if !b.is_empty() {
                    near.push((ext, format!("{a}{}", &b[1..])));
                }
                near.push((ext, a.to_string()));
                near.push((ext, b.to_string()));
            }
            near.push((ext, format!("{n}{n}")));
        }
    }
    ctx.space("near-names", near.len() as u64, |i, case| {
        let (ext, n) = &near[i as usize];
        case.step(1);
        case.trace();
        let (what, got, want) = if *ext {
            let f = format!("dir/a.{n}");
            let e = std::path::Path::new(&f).extension().and_then(|e| e.to_str()).unwrap_or("").to_string();
            (f.clone(), Format::from_extension(&f), known(&exts, &e))
        } else {
            (n.clone(), n.parse::<Format>().ok(), known(&opts, n))
        };
        case.state(&what);
        if got != want.map(|f| FORMATS[f].clone()) {
            case.fail("format", &format!("{got:?}"), &what);
        }
        case.outcome(if want.is_some() { "known" } else { "unknown" });
    });
    // Every input in every pair of formats, with every flag.
    let n = (ins.len() * 16 * 4) as u64;
    ctx.space("conversions", n, |i, case| {
        let mut r = Radix(i);
        let (f, t) = (r.take(4), r.take(4));
        let (types, verbose) = (r.take(2) == 1, r.take(2) == 1 && ctx.replaying());
        let inp = r.pick(&ins);
        let w = want(Some(f), Some(t), types, &inp.bytes, &reg);
        let input = format!("convert {:?} {:?} -> {:?} literal types {types}", inp.name, FORMATS[f], FORMATS[t]);
        case.state(&input);
        case.step(1);
        let mut out = vec![];
        match run_io(&cli(true, ("-", "-"), (Some(f), Some(t)), types, verbose), inp.bytes.as_slice(), &mut out, &reg) {
            Ok(got) => judge(case, &w, &got, &out, &input, &reg),
            Err(p) => case.fail("panic", &p, &input),
        }
    });
    ctx.space("validations", (ins.len() * FILES.len()) as u64, |i, case| {
        let mut r = Radix(i);
        // File names play no part: it is always text.
        let (inp, f) = (r.pick(&ins), r.pick(&FILES));
        let w = want(Some(0), Some(0), false, &inp.bytes, &reg);
        let input = format!("validate {:?} {f:?}", inp.name);
        case.state(&input);
        case.step(1);
        let mut out = vec![];
        match run_io(&cli(false, (f.0, f.0), (None, None), false, false), inp.bytes.as_slice(), &mut out, &reg) {
            Ok(got) => judge(case, &w, &got, &out, &input, &reg),
            Err(p) => case.fail("panic", &p, &input),
        }
    });
    // One byte changed, added or left out, at every place of every input.
    let bytes: [&[u8]; 11] = [b"\0", b"\n", b"\r", b" ", b"\t", b"\x80", b"\xc3", b"\xff", b"\xef\xbb\xbf", b"\xc2\xa0", b"\xe2\x80\xa8"];
    for inp in &ins {
        let kinds: Vec<usize> = (0..5).filter(|&f| decode(f % 4, &inp.bytes, &reg).is_ok()).collect();
        if kinds.is_empty() {
            continue;
        }
        let stride = 1 + inp.bytes.len() / ctx.pick(250, 4000);
        let places = inp.bytes.len() / stride + 1;
        ctx.space(&format!("changed-{}", inp.name), (places * (bytes.len() * 2 + 1) * kinds.len()) as u64, |i, case| {
            let mut r = Radix(i);
            let (convert, f) = match *r.pick(&kinds) {
                4 => (false, 0),
                f => (true, f),
            };
            let change = r.take(bytes.len() * 2 + 1);
            let at = r.0 as usize * stride;
            let mut b = inp.bytes.clone();
            if change < bytes.len() {
                b.splice(at..at, bytes[change].iter().copied());
            } else if at == b.len() {
                return;
            } else if change < bytes.len() * 2 {
                b.splice(at..at + 1, bytes[change - bytes.len()].iter().copied());
            } else {
                b.remove(at);
            }
            let to = if convert { 3 } else { 0 };
            let w = want(Some(f), Some(to), false, &b, &reg);
            let input = format!("{} as {:?}, convert {convert}: change {change} at byte {at}", inp.name, FORMATS[f]);
            case.state(&input);
            case.step(1);
            let mut out = vec![];
            match run_io(&cli(convert, ("-", "-"), (Some(f), Some(to)), false, false), b.as_slice(), &mut out, &reg) {
                Ok(got) => judge(case, &w, &got, &out, &input, &reg),
                Err(p) => case.fail("panic", &p, &input),
            }
        });
    }
    // A fault at every byte of the input and of the output.
    let faults = [Fault::Error, Fault::Interrupted, Fault::Slow, Fault::Zero, Fault::Flush, Fault::None];
    for inp in &ins {
        let small = inp.bytes.len() < ctx.pick(700, 1 << 20);
        for (k, f) in FORMATS.iter().enumerate() {
            if decode(k, &inp.bytes, &reg).is_err() {
                continue;
            }
            let stride = if small { 1 } else { 7 };
            let n = (inp.bytes.len() / stride + 1) as u64 * 3 * 2;
            ctx.space(&format!("reading-{}-as-{f:?}", inp.name), n, |i, case| {
                let mut r = Radix(i);
                let fault = faults[r.take(3)];
                let convert = r.take(2) == 0 || k != 0;
                let at = r.0 as usize * stride;
                if fault == Fault::Slow && at != 0 {
                    return;
                }
                let input = format!("{} as {f:?}: {fault:?} after {at} bytes of input", inp.name);
                case.state(&format!("{convert} {input}"));
                case.step(1);
                let mut out = vec![];
                let mut rd = Bad::new(&inp.bytes, fault, at);
                let c = cli(convert, ("-", "-"), (Some(k), Some(3)), false, false);
                let got = match run_io(&c, &mut rd, &mut out, &reg) {
                    Ok(g) => g,
                    Err(p) => return case.fail("panic", &p, &input),
                };
                let w = if fault == Fault::Error { Want::Fail } else { want(Some(k), Some(if convert { 3 } else { 0 }), false, &inp.bytes, &reg) };
                judge(case, &w, &got, &out, &input, &reg);
            });
            for (t, to) in FORMATS.iter().enumerate() {
                let w = want(Some(k), Some(t), false, &inp.bytes, &reg);
                let len = match &w {
                    Want::Fail => continue,
                    Want::Text(s, _) => s.len(),
                    Want::Holds(..) => {
                        let mut o = vec![];
                        let _ = run_io(&cli(true, ("-", "-"), (Some(k), Some(t)), false, false), inp.bytes.as_slice(), &mut o, &reg);
                        o.len()
                    }
                };
                let stride = if ctx.quick() { 1 + len / 40 } else { 1 };
                let n = (len / stride + 1) as u64 * faults.len() as u64;
                ctx.space(&format!("writing-{}-{f:?}-{to:?}", inp.name), n, |i, case| {
                    let mut r = Radix(i);
                    let fault = *r.pick(&faults);
                    let at = r.0 as usize * stride;
                    if matches!(fault, Fault::Slow | Fault::Flush | Fault::None) && at != 0 {
                        return;
                    }
                    let input = format!("{} {f:?} -> {to:?}: {fault:?} after {at} bytes of output", inp.name);
                    case.state(&input);
                    case.step(1);
                    let mut wr = Bad::new(&[], fault, at);
                    let c = cli(true, ("-", "-"), (Some(k), Some(t)), false, false);
                    let got = match run_io(&c, inp.bytes.as_slice(), &mut wr, &reg) {
                        Ok(g) => g,
                        Err(p) => return case.fail("panic", &p, &input),
                    };
                    case.trace();
                    if wr.fired && fault != Fault::Interrupted {
                        // Told that its output did not arrive.
                        match got {
                            Err(e) if !e.is_empty() => case.outcome("failed"),
                            o => case.fail("lost", &format!("the write failed, but: {o:?}"), &input),
                        }
                        return;
                    }
                    judge(case, &w, &got, &wr.out, &input, &reg);
                });
            }
        }
    }
    programs(ctx, &ins);
}

/// The built program, its files and its exit status.
fn programs(ctx: &Ctx, ins: &[Input]) {
    if binary().is_none() {
        ctx.assume("the program was not built; its own process was not run");
        return;
    }
    let root = Scratch(std::env::temp_dir().join(format!("mc-c20-{}", std::process::id())));
    let _ = fs::remove_dir_all(&root.0);
    if fs::create_dir_all(&root.0).is_err() {
        return;
    }
    // The program knows no extensions.
    let reg = ExtensionRegistry::new();
    let dir = |case: &Case, space: &str| {
        let d = root.0.join(format!("{space}-{}", case.index()));
        let _ = fs::create_dir_all(d.join("dir.json"));
        d
    };
    let put = |d: &Path, name: &str, b: &[u8]| fs::write(d.join(name), b).is_ok();
    let s = |x: &str| x.to_string();
    // Every input, from a file and from standard input, to both.
    let kinds = ["txt", "json", "yaml", "pb", "none"];
    let n = (ins.len() * 4 * 5 * 5) as u64;
    ctx.space("program", n, |i, case| {
        let mut r = Radix(i);
        let mode = r.take(4);
        let (a, b) = (r.take(5), r.take(5));
        let inp = r.pick(ins);
        let (from_file, to_file) = (mode & 1 == 1, mode & 2 == 2);
        if ctx.quick() && (a != b && mode != 3 && a != 0 && !inp.name.starts_with("tree")) {
            return;
        }
        let d = dir(case, "program");
        let (ext_in, ext_out) = (kinds[a], kinds[b]);
        let mut args = vec![s("convert")];
        let fmt = |k: usize| (k < 4).then_some(k);
        let names = ["text", "json", "yaml", "protobuf"];
        let (fin, fout) = (format!("in.{ext_in}"), format!("out.{ext_out}"));
        if from_file {
            put(&d, &fin, &inp.bytes);
            args.extend([s("-i"), fin.clone()]);
        } else if let Some(k) = fmt(a) {
            args.extend([s("-f"), s(names[k])]);
        }
        if to_file {
            args.extend([s("-o"), fout.clone()]);
        } else if let Some(k) = fmt(b) {
            args.extend([s("--to"), s(names[k])]);
        }
        let verbose = i % 3 == 0;
        let types = i % 2 == 0;
        if verbose {
            args.push(s("-v"));
        }
        if types {
            args.push(s("--show-literal-types"));
        }
        let w = want(fmt(a), fmt(b), types, &inp.bytes, &reg);
        let input = format!("{} {args:?}", inp.name);
        case.state(&input);
        case.step(1);
        match spawn(&d, &args, if from_file { b"" } else { &inp.bytes }, None) {
            Ok(r) => {
                let file = if to_file { fs::read(d.join(&fout)).unwrap_or_default() } else { r.out.clone() };
                if to_file && !r.out.is_empty() {
                    case.fail("output", "it also wrote to standard output", &input);
                }
                judge_run(case, &w, &r, &file, verbose, &input, &reg)
            }
            Err(e) => case.fail("spawn", &e.to_string(), &input),
        }
        let _ = fs::remove_dir_all(&d);
    });
    // Documents of every order of magnitude, past every buffer on the way.
    let lens = crate::sweeps::sizes(0, ctx.pick(10_001, 100_001));
    let n = lens.len() as u64 * 16 * 4;
    ctx.space("program-sizes", n, |i, case| {
        let mut r = Radix(i);
        let (a, b, mode) = (r.take(4), r.take(4), r.take(4));
        let len = *r.pick(&lens);
        if ctx.quick() && mode != (a + b) % 4 {
            return;
        }
        let word: String = "abcdefgh".chars().cycle().take(len).collect();
        let d = crate::pools::doc(vec![Top::Rel(rel(
            Op::Virtual {
                rows: (0..4 + len / 16).map(|k| vec![int(k as i64), lit(V::Str(if k == 2 { word.clone() } else { format!("s{k}") }))]).collect(),
                filter: None,
                cols: crate::pools::cols(2),
            },
            vec![],
        ))]);
        let p = d.proto();
        let bytes = match a {
            0 => d.text(&Opts::default()).into_bytes(),
            1 => serde_json::to_vec(&p).expect("json"),
            2 => serde_yaml::to_string(&p).expect("yaml").into_bytes(),
            _ => p.encode_to_vec(),
        };
        let names = ["text", "json", "yaml", "protobuf"];
        let dd = dir(case, "sizes");
        let mut args = vec![s("convert"), s("-f"), s(names[a]), s("-t"), s(names[b])];
        let (from_file, to_file) = (mode & 1 == 1, mode & 2 == 2);
        if from_file {
            put(&dd, "in", &bytes);
            args.extend([s("-i"), s("in")]);
        }
        if to_file {
            // What an earlier, longer file held is gone.
            put(&dd, "out", &vec![b'x'; bytes.len() * 8]);
            args.extend([s("-o"), s("out")]);
        }
        let w = if b == 0 { Want::Text(d.text(&Opts::default()), vec![]) } else { Want::Holds(b, p) };
        let input = format!("{len} letters and {} rows {args:?}", 4 + len / 16);
        case.state(&input);
        case.step(1);
        match spawn(&dd, &args, if from_file { b"" } else { &bytes }, None) {
            Ok(r) => {
                let file = if to_file { fs::read(dd.join("out")).unwrap_or_default() } else { r.out.clone() };
                judge_run(case, &w, &r, &file, false, &input, &reg)
            }
            Err(e) => case.fail("spawn", &e.to_string(), &input),
        }
        let _ = fs::remove_dir_all(&dd);
    });
    // Validation, and conversions of a file onto itself.
    ctx.space("program-validate", ins.len() as u64 * 6, |i, case| {
        let mut r = Radix(i);
        let mode = r.take(3);
        let verbose = r.take(2) == 1;
        let inp = r.pick(ins);
        let d = dir(case, "validate");
        let mut args = vec![s("validate")];
        put(&d, "x.json", &inp.bytes);
        if mode > 0 {
            args.extend([s("-i"), s("x.json")]);
        }
        if mode > 1 {
            args.extend([s("--output"), s("x.json")]);
        }
        if verbose {
            args.push(s("--verbose"));
        }
        let w = want(Some(0), Some(0), false, &inp.bytes, &reg);
        let input = format!("{} {args:?}", inp.name);
        case.state(&input);
        case.step(1);
        match spawn(&d, &args, if mode > 0 { b"" } else { &inp.bytes }, None) {
            Ok(r) => {
                let file = fs::read(d.join("x.json")).unwrap_or_default();
                // What a failed run leaves of its own output file is not said.
                let out = if mode < 2 { r.out.clone() } else if matches!(w, Want::Fail) { vec![] } else { file };
                if mode > 1 && !r.out.is_empty() {
                    case.fail("output", "it also wrote to standard output", &input);
                }
                judge_run(case, &w, &r, &out, verbose, &input, &reg)
            }
            Err(e) => case.fail("spawn", &e.to_string(), &input),
        }
        let _ = fs::remove_dir_all(&d);
    });
    ctx.space("program-in-place", ins.len() as u64 * 4 * 5, |i, case| {
        let mut r = Radix(i);
        let (k, to) = (r.take(4), r.take(5));
        let inp = r.pick(ins);
        let d = dir(case, "inplace");
        let name = format!("x.{}", kinds[k]);
        put(&d, &name, &inp.bytes);
        let mut args = vec![s("convert"), s("-i"), name.clone(), s("-o"), format!("./{name}")];
        if to < 4 {
            args.extend([s("-t"), s(["TEXT", "Json", "yaml", "proto"][to])]);
        }
        let w = want(Some(k), Some(if to < 4 { to } else { k }), false, &inp.bytes, &reg);
        let input = format!("{} {args:?}", inp.name);
        case.state(&input);
        case.step(1);
        match spawn(&d, &args, b"", None) {
            Ok(r) => {
                let out = if matches!(w, Want::Fail) { vec![] } else { fs::read(d.join(&name)).unwrap_or_default() };
                judge_run(case, &w, &r, &out, false, &input, &reg)
            }
            Err(e) => case.fail("spawn", &e.to_string(), &input),
        }
        let _ = fs::remove_dir_all(&d);
    });
    // Inputs and outputs that cannot be used, and arguments that make no sense.
    let good = ins.iter().find(|x| x.name == "tree.txt").map(|x| x.bytes.clone()).unwrap_or_default();
    let refusals: Vec<Vec<&str>> = vec![
        vec!["convert", "-i", "missing.txt", "-t", "json"],
        vec!["convert", "-i", "dir.json", "-f", "json", "-t", "json"],
        vec!["convert", "-i", "dir.json", "-t", "json"],
        vec!["convert", "-f", "text", "-o", "dir.json"],
        vec!["convert", "-f", "text", "-o", "nowhere/out.txt"],
        vec!["convert", "-f", "text", "-o", ""],
        vec!["convert", "-i", "", "-f", "text", "-t", "text"],
        vec!["convert"],
        vec!["convert", "-f", "text"],
        vec!["convert", "-t", "text"],
        vec!["convert", "-f", "nope", "-t", "text"],
        vec!["convert", "-f", "text", "-t", "nope"],
        vec!["convert", "-f", "text", "-t", ""],
        vec!["convert", "-f", "text", "-t", "text", "-f", "json"],
        vec!["convert", "-f"],
        vec!["convert", "--nope"],
        vec!["convert", "extra", "-f", "text", "-t", "text"],
        vec!["validate", "-i", "missing.txt"],
        vec!["validate", "-i", "dir.json"],
        vec!["validate", "-o", "dir.json"],
        vec!["validate", "-o", "nowhere/out.txt"],
        vec!["validate", "-f", "text"],
        vec!["nope"],
        vec![],
        vec!["convert", "-f", "text", "-t", "text", "-o", "/dev/full"],
        vec!["convert", "-f", "text", "-t", "json", "-o", "/dev/full"],
        vec!["convert", "-f", "text", "-t", "yaml", "-o", "/dev/full"],
        vec!["convert", "-f", "text", "-t", "pb", "-o", "/dev/full"],
        vec!["validate", "-o", "/dev/full"],
    ];
    ctx.space("program-refusals", refusals.len() as u64, |i, case| {
        let a = &refusals[i as usize];
        if a.contains(&"/dev/full") && !Path::new("/dev/full").exists() {
            return;
        }
        let d = dir(case, "refusals");
        let args: Vec<String> = a.iter().map(|x| s(x)).collect();
        let input = format!("{args:?}");
        case.state(&input);
        case.step(1);
        match spawn(&d, &args, &good, None) {
            Ok(r) => judge_run(case, &Want::Fail, &r, &r.out, false, &input, &reg),
            Err(e) => case.fail("spawn", &e.to_string(), &input),
        }
        let _ = fs::remove_dir_all(&d);
    });
    // A standard output that takes nothing.
    ctx.space("program-full", ins.len() as u64 * 5, |i, case| {
        let mut r = Radix(i);
        let to = r.take(5);
        let inp = r.pick(ins);
        let Ok(full) = File::options().write(true).open("/dev/full") else { return };
        let Some(k) = (0..4).find(|k| decode(*k, &inp.bytes, &reg).is_ok()) else { return };
        if to == 4 && k != 0 {
            return;
        }
        let d = dir(case, "full");
        let names = ["text", "json", "yaml", "protobuf"];
        let args = if to == 4 { vec![s("validate")] } else { vec![s("convert"), s("-f"), s(names[k]), s("-t"), s(names[to])] };
        // Nothing to write is nothing to lose.
        let w = match want(Some(k), Some(if to == 4 { 0 } else { to }), false, &inp.bytes, &reg) {
            Want::Text(t, _) if t.is_empty() => return,
            Want::Holds(3, p) if p.encode_to_vec().is_empty() => return,
            _ => Want::Fail,
        };
        let input = format!("{} {args:?} > /dev/full", inp.name);
        case.state(&input);
        case.step(1);
        match spawn(&d, &args, &inp.bytes, Some(full)) {
            Ok(r) => judge_run(case, &w, &r, b"", false, &input, &reg),
            Err(e) => case.fail("spawn", &e.to_string(), &input),
        }
        let _ = fs::remove_dir_all(&d);
    });
    ctx.space("program-help", 5, |i, case| {
        let a = [vec!["--help"], vec!["--version"], vec!["help"], vec!["convert", "--help"], vec!["validate", "-h"]];
        let d = dir(case, "help");
        let args: Vec<String> = a[i as usize].iter().map(|x| s(x)).collect();
        case.state(&format!("{args:?}"));
        case.step(1);
        case.trace();
        match spawn(&d, &args, b"", None) {
            Ok(r) if r.code == Some(0) && !r.out.is_empty() => {}
            Ok(r) => case.fail("help", &format!("{:?} {}", r.code, r.err), &format!("{args:?}")),
            Err(e) => case.fail("spawn", &e.to_string(), &format!("{args:?}")),
        }
        let _ = fs::remove_dir_all(&d);
    });
}
