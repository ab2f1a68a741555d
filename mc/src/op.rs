//! World operations and their textual form.

use crate::comps::mask_name;
use std::fmt;

/// Entity arguments are positions in the list of living entities, oldest first.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Create(u8),
    Extend(u8, u8),
    Insert(u8, u8),
    Remove(u8, u8),
    Delete(u8, u8),
    Destroy(u8),
    Atomic,
    Maintain,
    Clear,
    Reset,
    Layout(u8),
    Register(u8),
}

impl Op {
    pub fn pack(self) -> (u8, u8, u8) {
        match self {
            Self::Create(m) => (b'c', m, 0),
            Self::Extend(m, n) => (b'e', m, n),
            Self::Insert(s, m) => (b'i', s, m),
            Self::Remove(s, m) => (b'r', s, m),
            Self::Delete(s, m) => (b'd', s, m),
            Self::Destroy(s) => (b'x', s, 0),
            Self::Atomic => (b'a', 0, 0),
            Self::Maintain => (b'm', 0, 0),
            Self::Clear => (b'C', 0, 0),
            Self::Reset => (b'R', 0, 0),
            Self::Layout(k) => (b'L', k, 0),
            Self::Register(k) => (b'g', k, 0),
        }
    }

    pub fn unpack(k: u8, a: u8, b: u8) -> Option<Self> {
        Some(match k {
            b'c' => Self::Create(a),
            b'e' => Self::Extend(a, b),
            b'i' => Self::Insert(a, b),
            b'r' => Self::Remove(a, b),
            b'd' => Self::Delete(a, b),
            b'x' => Self::Destroy(a),
            b'a' => Self::Atomic,
            b'm' => Self::Maintain,
            b'C' => Self::Clear,
            b'R' => Self::Reset,
            b'L' => Self::Layout(a),
            b'g' => Self::Register(a),
            _ => return None,
        })
    }
}

pub fn encode(ops: &[Op]) -> String {
    let mut s = String::with_capacity(ops.len() * 6);
    for (i, op) in ops.iter().enumerate() {
        let (k, a, b) = op.pack();
        if i > 0 {
            s.push(',');
        }
        s.push(k as char);
        s.push_str(&format!("{a}.{b}"));
    }
    s
}

pub fn decode(s: &str) -> Vec<Op> {
    s.split(',')
        .filter(|t| !t.trim().is_empty())
        .map(|t| {
            let t = t.trim();
            let (a, b) = t[1..].split_once('.').expect("op");
            Op::unpack(t.as_bytes()[0], a.parse().expect("op"), b.parse().expect("op")).expect("op")
        })
        .collect()
}

impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            Self::Create(m) => write!(f, "create{}", mask_name(m)),
            Self::Extend(m, n) => write!(f, "extend{}x{n}", mask_name(m)),
            Self::Insert(s, m) => write!(f, "insert(e{s}, {})", mask_name(m)),
            Self::Remove(s, m) => write!(f, "remove(e{s}, {})", mask_name(m)),
            Self::Delete(s, m) => write!(f, "delete(e{s}, {})", mask_name(m)),
            Self::Destroy(s) => write!(f, "destroy(e{s})"),
            Self::Atomic => write!(f, "create_atomic()"),
            Self::Maintain => write!(f, "maintain()"),
            Self::Clear => write!(f, "clear()"),
            Self::Reset => write!(f, "reset()"),
            Self::Layout(k) => write!(f, "set_layout(#{k})"),
            Self::Register(c) => write!(f, "register({})", crate::comps::NAMES[c as usize]),
        }
    }
}
