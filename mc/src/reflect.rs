//! Every single change of a plan message: each field of each message it holds,
//! removed, emptied, switched to another alternative, or set to other values.

use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, FieldDescriptor, Kind, MessageDescriptor, ReflectMessage, Value};
use substrait::proto::Plan;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// A field of the current message, by number.
    Field(u32),
    /// An element of the repeated field just entered.
    Index(usize),
}

#[derive(Clone, Debug)]
pub enum Edit {
    Clear,
    Set(Value),
    Remove(usize),
    Double(usize),
    Swap(usize),
    Push(Value),
}

#[derive(Clone, Debug)]
pub struct Change {
    /// The messages above the changed field, from the plan down.
    pub path: Vec<Step>,
    pub field: u32,
    pub edit: Edit,
    /// Full name of the field, for messages and exclusions.
    pub name: String,
    /// Full names of the messages on the way, the plan first.
    pub via: Vec<String>,
}

pub fn pool() -> DescriptorPool {
    substrait_explain::json::build_descriptor_pool(&[]).expect("descriptor pool")
}

pub fn dynamic(pool: &DescriptorPool, plan: &Plan) -> DynamicMessage {
    let d = pool.get_message_by_name("substrait.Plan").expect("substrait.Plan");
    DynamicMessage::decode(d, plan.encode_to_vec().as_slice()).expect("decode plan")
}

pub fn plan_of(m: &DynamicMessage) -> Plan {
    let mut out = vec![];
    wire(m, &mut out);
    Plan::decode(out.as_slice()).expect("decode plan")
}

/// The message's bytes, innermost first: the library's own encoder measures
/// each message again at every level.
fn wire(m: &DynamicMessage, out: &mut Vec<u8>) {
    fn one(f: &FieldDescriptor, v: &Value, out: &mut Vec<u8>) {
        let n = f.number();
        macro_rules! put {
            ($m:ident, $v:expr) => {
                prost::encoding::$m::encode(n, $v, out)
            };
        }
        match (f.kind(), v) {
            (_, Value::Message(x)) => {
                let mut inner = vec![];
                wire(x, &mut inner);
                put!(bytes, &inner)
            }
            (Kind::Bool, Value::Bool(x)) => put!(bool, x),
            (Kind::Double, Value::F64(x)) => put!(double, x),
            (Kind::Float, Value::F32(x)) => put!(float, x),
            (Kind::Int32, Value::I32(x)) => put!(int32, x),
            (Kind::Int64, Value::I64(x)) => put!(int64, x),
            (Kind::Uint32, Value::U32(x)) => put!(uint32, x),
            (Kind::Uint64, Value::U64(x)) => put!(uint64, x),
            (Kind::Enum(_), Value::EnumNumber(x)) => put!(int32, x),
            (Kind::String, Value::String(x)) => put!(string, x),
            (Kind::Bytes, Value::Bytes(x)) => put!(bytes, &x.to_vec()),
            (k, v) => panic!("unexpected field {k:?} {v:?}"),
        }
    }
    for (f, v) in m.fields() {
        match v {
            Value::List(l) => l.iter().for_each(|v| one(&f, v, out)),
            Value::Map(_) => panic!("unexpected map"),
            v => one(&f, v, out),
        }
    }
    for u in m.unknown_fields() {
        u.encode(out);
    }
}

fn default_of(f: &FieldDescriptor) -> Value {
    Value::default_value(&f.kind())
}

/// Other values for a scalar; `None` for messages.
fn scalars(f: &FieldDescriptor) -> Option<Vec<Value>> {
    Some(match f.kind() {
        Kind::Message(_) => return None,
        Kind::Double => [0.0, 1.5, f64::NAN, f64::INFINITY].map(Value::F64).to_vec(),
        Kind::Float => [0.0, 1.5, f32::NAN, f32::NEG_INFINITY].map(Value::F32).to_vec(),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => [0, 1, 2, 13, -1, 99, i32::MAX, i32::MIN].map(Value::I32).to_vec(),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => [0, 1, -1, 99, i64::MAX, i64::MIN].map(Value::I64).to_vec(),
        Kind::Uint32 | Kind::Fixed32 => [0, 1, 2, 99, u32::MAX].map(Value::U32).to_vec(),
        Kind::Uint64 | Kind::Fixed64 => [0, 1, 99, u64::MAX].map(Value::U64).to_vec(),
        Kind::Bool => vec![Value::Bool(false), Value::Bool(true)],
        Kind::String => ["", "x", "i64", "x, y", "two words", "a'b\"c\\d", "line\nbreak", "\u{e9}\u{1f600}"]
            .map(|s| Value::String(s.into()))
            .to_vec(),
        Kind::Bytes => [&b""[..], b"x", b"\xff\xfe\x00\x01"].map(|b| Value::Bytes(b.to_vec().into())).to_vec(),
        Kind::Enum(e) => {
            let mut v: Vec<Value> = e.values().map(|x| Value::EnumNumber(x.number())).collect();
            v.extend([99, -1].map(Value::EnumNumber));
            v
        }
    })
}

/// A message with something in every field, down to a depth.
fn filled(d: &MessageDescriptor, depth: usize) -> DynamicMessage {
    let mut m = DynamicMessage::new(d.clone());
    for f in d.fields().filter(|f| !f.is_map()) {
        let v = match f.kind() {
            Kind::Message(d) if depth > 0 => Value::Message(filled(&d, depth - 1)),
            Kind::Message(_) => continue,
            Kind::Enum(_) => Value::EnumNumber(1),
            Kind::Bytes => Value::Bytes(b"x".to_vec().into()),
            _ => scalars(&f).expect("scalar")[1].clone(),
        };
        m.set_field(&f, if f.is_list() { Value::List(vec![v]) } else { v });
    }
    m
}

/// Every change of every field of every message in the plan.
pub fn changes(root: &DynamicMessage) -> Vec<Change> {
    let mut out = vec![];
    walk(root, &mut vec![], &mut vec![], &mut out);
    out
}

fn walk(m: &DynamicMessage, path: &mut Vec<Step>, via: &mut Vec<String>, out: &mut Vec<Change>) {
    let d = m.descriptor();
    via.push(d.full_name().to_string());
    for f in d.fields() {
        let mut add = |edit: Edit| {
            out.push(Change {
                path: path.clone(),
                field: f.number(),
                edit,
                name: f.full_name().to_string(),
                via: via.clone(),
            })
        };
        let set = m.has_field(&f);
        if set {
            add(Edit::Clear);
        }
        if f.is_list() {
            let v = m.get_field(&f);
            let items = v.as_list().unwrap_or(&[]);
            add(Edit::Push(default_of(&f)));
            for i in 0..items.len() {
                add(Edit::Remove(i));
                add(Edit::Double(i));
                if i + 1 < items.len() {
                    add(Edit::Swap(i));
                }
            }
            if let Some(vs) = scalars(&f) {
                for i in 0..items.len() {
                    for v in &vs {
                        let mut l = items.to_vec();
                        l[i] = v.clone();
                        add(Edit::Set(Value::List(l)));
                    }
                }
            }
        } else if !f.is_map() {
            match scalars(&f) {
                Some(vs) => {
                    for v in vs {
                        add(Edit::Set(v));
                    }
                }
                None => {
                    add(Edit::Set(default_of(&f)));
                    if !set && let Kind::Message(d) = f.kind() {
                        add(Edit::Set(Value::Message(filled(&d, 2))));
                    }
                }
            }
        }
        // The messages inside.
        if set && matches!(f.kind(), Kind::Message(_)) {
            let v = m.get_field(&f);
            path.push(Step::Field(f.number()));
            match v.as_ref() {
                Value::Message(x) => walk(x, path, via, out),
                Value::List(items) => {
                    for (i, x) in items.iter().enumerate() {
                        if let Value::Message(x) = x {
                            path.push(Step::Index(i));
                            walk(x, path, via, out);
                            path.pop();
                        }
                    }
                }
                _ => {}
            }
            path.pop();
        }
    }
    via.pop();
}

/// Apply a change; `None` if its path no longer exists.
pub fn apply(root: &DynamicMessage, c: &Change) -> Option<DynamicMessage> {
    let mut r = root.clone();
    edit(&mut r, &c.path, c)?;
    Some(r)
}

fn edit(m: &mut DynamicMessage, path: &[Step], c: &Change) -> Option<()> {
    let Some((Step::Field(n), rest)) = path.split_first() else {
        let f = m.descriptor().get_field(c.field)?;
        match &c.edit {
            Edit::Clear => m.clear_field(&f),
            Edit::Set(v) => {
                if !v.is_valid_for_field(&f) {
                    return None;
                }
                m.set_field(&f, v.clone())
            }
            e => {
                let l = m.get_field_mut(&f).as_list_mut()?;
                match e {
                    Edit::Remove(i) if *i < l.len() => {
                        l.remove(*i);
                    }
                    Edit::Double(i) if *i < l.len() => {
                        let x = l[*i].clone();
                        l.insert(*i, x);
                    }
                    Edit::Swap(i) if *i + 1 < l.len() => l.swap(*i, *i + 1),
                    Edit::Push(v) => l.push(v.clone()),
                    _ => return None,
                }
            }
        }
        return Some(());
    };
    let f = m.descriptor().get_field(*n)?;
    if !m.has_field(&f) {
        return None;
    }
    let v = m.get_field_mut(&f);
    match rest.split_first() {
        Some((Step::Index(i), rest)) => edit(v.as_list_mut()?.get_mut(*i)?.as_message_mut()?, rest, c),
        _ => edit(v.as_message_mut()?, rest, c),
    }
}
