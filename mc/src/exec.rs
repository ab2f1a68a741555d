//! Executes operations on a real world and on the reference model, comparing every return value.

use crate::comps::*;
use crate::op::Op;
use engine::{alloc, ledger};
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::entity::{Entity, Version};
use sparsey::World;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::{self, Write};

/// Group layouts, as the sets of components of the groups in the order in which they are added.
pub const LAYOUTS: &[&[u8]] = &[
    &[],
    &[0b0011],
    &[0b0111],
    &[0b0011, 0b0111],
    &[0b0011, 0b1100],
    &[0b0011, 0b1111],
    &[0b0011, 0b0111, 0b1111],
    &[0b0110],
    &[0b0101],
    &[0b1110],
    &[0b0110, 0b0111],
    &[0b0101, 0b0111],
    &[0b1001],
    &[0b1111],
    &[0b0111, 0b1111],
    &[0b1010, 0b0101],
    &[0b1010, 0b1110, 0b1111],
];

pub fn component_data(i: usize) -> ComponentData {
    match i {
        0 => ComponentData::new::<A>(),
        1 => ComponentData::new::<B>(),
        2 => ComponentData::new::<C>(),
        _ => ComponentData::new::<D>(),
    }
}

pub fn group_data(mask: u8) -> Vec<ComponentData> {
    (0..N).filter(|i| mask >> i & 1 == 1).map(component_data).collect()
}

pub fn layout(k: usize) -> GroupLayout {
    let mut l = GroupLayout::default();
    for m in LAYOUTS[k] {
        l.add_group_dyn(&group_data(*m));
    }
    l
}

pub fn layout_name(k: usize) -> String {
    let v: Vec<String> = LAYOUTS[k].iter().map(|m| mask_name(*m)).collect();
    format!("[{}]", v.join(" "))
}

pub type Row = [Option<u32>; N];

pub fn row_mask(r: &Row) -> u8 {
    (0..N).map(|i| u8::from(r[i].is_some()) << i).sum()
}

/// A list of handles, in the order in which they were issued.
#[derive(Clone, Default, Debug)]
pub struct Issued {
    list: Vec<Entity>,
    /// When the list is long: all handles in it, and the latest version of each index.
    all: HashSet<Entity>,
    latest: HashMap<u32, u32>,
}

impl Issued {
    const LONG: usize = 200;

    pub fn push(&mut self, e: Entity) {
        self.list.push(e);
        if self.list.len() >= Self::LONG {
            let first = if self.all.is_empty() { 0 } else { self.list.len() - 1 };
            for e in &self.list[first..] {
                self.all.insert(*e);
                let v = self.latest.entry(e.index).or_default();
                *v = (*v).max(e.version.0.get());
            }
        }
    }

    pub fn clear(&mut self) {
        *self = Self::default();
    }

    pub fn has(&self, e: Entity) -> bool {
        if self.all.is_empty() { self.list.contains(&e) } else { self.all.contains(&e) }
    }

    pub fn latest(&self, index: u32) -> u32 {
        if self.all.is_empty() {
            self.list.iter().filter(|e| e.index == index).map(|e| e.version.0.get()).max().unwrap_or(0)
        } else {
            self.latest.get(&index).copied().unwrap_or(0)
        }
    }
}

impl PartialEq for Issued {
    fn eq(&self, o: &Self) -> bool {
        self.list == o.list
    }
}

impl std::ops::Deref for Issued {
    type Target = Vec<Entity>;
    fn deref(&self) -> &Vec<Entity> {
        &self.list
    }
}

/// What the world is supposed to contain.
#[derive(Clone, Default)]
pub struct Model {
    /// Living entities, oldest first.
    pub ents: Vec<(Entity, Row)>,
    /// Deferred creations that are not alive yet.
    pub pending: Vec<Entity>,
    /// Entities that were alive, or pending, and never will be again.
    pub dead: Vec<Entity>,
    /// Every handle given out since the last reset.
    pub issued: Issued,
    pub registered: u8,
    pub layout: u8,
    /// Number of destroyed entities whose index may be given out again.
    pub recyclable: usize,
}

impl Model {
    /// The position of a living entity, looked for first where it is when few have been destroyed.
    fn position(&self, e: Entity) -> Option<usize> {
        let at = e.index as usize;
        let near = (0..8).filter_map(|k| at.checked_sub(k)).find(|i| self.ents.get(*i).is_some_and(|x| x.0 == e));
        near.or_else(|| self.ents.iter().position(|x| x.0 == e))
    }

    pub fn get(&self, e: Entity) -> Option<&Row> {
        self.position(e).map(|i| &self.ents[i].1)
    }

    pub fn row_mut(&mut self, e: Entity) -> Option<&mut Row> {
        self.position(e).map(|i| &mut self.ents[i].1)
    }

    pub fn alive(&self, e: Entity) -> bool {
        self.position(e).is_some()
    }

    /// Latest version given out for an index.
    pub fn latest(&self, index: u32) -> u32 {
        self.issued.latest(index)
    }

    pub fn max_index(&self) -> Option<u32> {
        self.issued.iter().map(|e| e.index).max()
    }

    /// Handles whose treatment is worth observing: living, pending, the most recent dead ones of each
    /// index, and made-up ones.
    pub fn tracked(&self) -> Vec<Entity> {
        let mut v: Vec<Entity> = self.ents.iter().map(|x| x.0).collect();
        v.extend_from_slice(&self.pending);
        let mut per_index: Vec<(u32, u32)> = Vec::new();
        for e in self.dead.iter().rev() {
            let n = match per_index.iter_mut().find(|x| x.0 == e.index) {
                Some(x) => x,
                None => {
                    per_index.push((e.index, 0));
                    per_index.last_mut().unwrap()
                }
            };
            if n.1 < 2 {
                n.1 += 1;
                v.push(*e);
            }
        }
        let hi = self.max_index().map_or(0, |i| i + 1);
        // Of very many, some.
        for i in (0..hi).step_by(1 + hi as usize / 256) {
            let l = self.latest(i);
            if l != 0 && l < u32::MAX {
                v.push(entity(i, l + 1));
            }
        }
        v.push(entity(hi, 1));
        v.push(entity(hi + 7, 1));
        v.push(entity(u32::MAX, 1));
        v.push(entity(0, u32::MAX));
        v.retain(|e| !self.ghost_conflict(*e));
        v
    }

    fn ghost_conflict(&self, _e: Entity) -> bool {
        false
    }
}

pub fn entity(index: u32, version: u32) -> Entity {
    Entity::new(index, Version(std::num::NonZeroU32::new(version).unwrap()))
}

pub struct Exec {
    pub w: World,
    pub m: Model,
}

pub fn begin_run() {
    ledger::reset();
    reset_values();
    alloc::flush_quarantine();
    alloc::take_error();
    alloc::reset_balance();
}

#[macro_export]
macro_rules! err {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

/// Expands `$mac!(($args) (Type, index) ...)` for the component tuple selected by a mask.
#[macro_export]
macro_rules! for_mask {
    ($m:expr, $mac:ident, $($args:tt)*) => {
        match $m {
            1 => $mac!(($($args)*) (A, a, 0)),
            2 => $mac!(($($args)*) (B, b, 0)),
            3 => $mac!(($($args)*) (A, a, 0) (B, b, 1)),
            4 => $mac!(($($args)*) (C, c, 0)),
            5 => $mac!(($($args)*) (A, a, 0) (C, c, 1)),
            6 => $mac!(($($args)*) (B, b, 0) (C, c, 1)),
            7 => $mac!(($($args)*) (A, a, 0) (B, b, 1) (C, c, 2)),
            8 => $mac!(($($args)*) (D, d, 0)),
            9 => $mac!(($($args)*) (A, a, 0) (D, d, 1)),
            10 => $mac!(($($args)*) (B, b, 0) (D, d, 1)),
            11 => $mac!(($($args)*) (A, a, 0) (B, b, 1) (D, d, 2)),
            12 => $mac!(($($args)*) (C, c, 0) (D, d, 1)),
            13 => $mac!(($($args)*) (A, a, 0) (C, c, 1) (D, d, 2)),
            14 => $mac!(($($args)*) (B, b, 0) (C, c, 1) (D, d, 2)),
            15 => $mac!(($($args)*) (A, a, 0) (B, b, 1) (C, c, 2) (D, d, 3)),
            _ => unreachable!(),
        }
    };
}

macro_rules! op_create {
    (($w:ident, $row:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        $(let ($v, x) = <$T as Comp>::make(); $row[$T::I] = Some(x);)*
        alloc::tagged(|| $w.create(($($v,)*)))
    }};
}

macro_rules! op_insert {
    (($w:ident, $e:ident, $row:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        $(let ($v, x) = <$T as Comp>::make(); $row[$T::I] = Some(x);)*
        alloc::tagged(|| $w.insert($e, ($($v,)*)))
    }};
}

macro_rules! op_remove {
    (($w:ident, $e:ident, $out:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        let r = alloc::tagged(|| $w.remove::<($($T,)*)>($e));
        $($out[$T::I] = r.$i.as_ref().map(|x| x.val());)*
        let _moved_out = r;
    }};
}

macro_rules! op_delete {
    (($w:ident, $e:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        alloc::tagged(|| $w.delete::<($($T,)*)>($e));
    }};
}

/// An iterator of `left` items with one of several correct size hints.
struct Hinted<F> {
    left: u8,
    hint: u8,
    f: F,
}

impl<T, F: FnMut() -> T> Iterator for Hinted<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.left = self.left.checked_sub(1)?;
        Some((self.f)())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left as usize;
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(2 * n + 1)),
            _ => (n / 2, None),
        }
    }
}

macro_rules! op_extend {
    (($w:ident, $n:ident, $hint:ident, $rows:ident) $(($T:ident, $v:ident, $i:tt))*) => {{
        let mut make = || {
            alloc::untagged(|| {
                let mut row: Row = [None; N];
                $(let ($v, x) = <$T as Comp>::make(); row[$T::I] = Some(x);)*
                $rows.push(row);
                ($($v,)*)
            })
        };
        alloc::tagged(|| {
            let s = $w.extend(Hinted { left: $n, hint: $hint, f: &mut make });
            alloc::untagged(|| s.to_vec())
        })
    }};
}

impl Exec {
    /// A world with the given layout and registered components.
    pub fn new(layout_index: u8, registered: u8) -> Self {
        let w = alloc::tagged(|| {
            let mut b = World::builder();
            b.set_layout(layout(layout_index as usize));
            for i in 0..N {
                if registered >> i & 1 == 1 {
                    b.register_dyn(component_data(i));
                }
            }
            b.build()
        });
        let grouped = LAYOUTS[layout_index as usize].iter().fold(0, |a, m| a | m);
        Self {
            w,
            m: Model { registered: registered | grouped, layout: layout_index, ..Model::default() },
        }
    }

    pub fn check_issue(&mut self, e: Entity, how: &str) -> Result<(), String> {
        if self.m.issued.has(e) {
            err!("{how} returned {e:?}, a handle that was given out before");
        }
        if self.m.latest(e.index) != 0 {
            self.m.recyclable = self.m.recyclable.saturating_sub(1);
        }
        self.m.issued.push(e);
        Ok(())
    }

    /// The living entity at a position. When there are many, the highest slots stand for the
    /// positions -1, 256, and 65536 or the middle.
    pub fn slot(&self, s: u8) -> Result<Entity, String> {
        let n = self.m.ents.len();
        let at = match s {
            255 if n > 250 => n - 1,
            254 if n > 256 => 256,
            253 if n > 250 => if n > 65536 { 65536 } else { n / 2 },
            _ => s as usize,
        };
        self.m.ents.get(at).map(|x| x.0).ok_or_else(|| format!("harness: no slot {s}"))
    }

    pub fn insert(&mut self, e: Entity, mask: u8) -> Result<(), String> {
        let mut row: Row = [None; N];
        let w = &mut self.w;
        let ok = if mask == 0 { w.insert(e, ()) } else { for_mask!(mask, op_insert, w, e, row) };
        let alive = self.m.alive(e);
        if ok != alive {
            err!("insert({e:?}) returned {ok}, but the entity is {}", if alive { "alive" } else { "not alive" });
        }
        if let Some(r) = self.m.row_mut(e) {
            for i in 0..N {
                if row[i].is_some() {
                    r[i] = row[i];
                }
            }
        }
        Ok(())
    }

    pub fn remove(&mut self, e: Entity, mask: u8) -> Result<(), String> {
        let mut out: Row = [None; N];
        let w = &mut self.w;
        if mask == 0 {
            let () = w.remove::<()>(e);
        } else {
            for_mask!(mask, op_remove, w, e, out);
        }
        let mut expect: Row = [None; N];
        if let Some(r) = self.m.row_mut(e) {
            for i in 0..N {
                if mask >> i & 1 == 1 {
                    expect[i] = r[i].take();
                }
            }
        }
        if out != expect {
            err!("remove{}({e:?}) returned {out:?}, expected {expect:?}", mask_name(mask));
        }
        Ok(())
    }

    pub fn delete(&mut self, e: Entity, mask: u8) -> Result<(), String> {
        let w = &mut self.w;
        if mask == 0 {
            w.delete::<()>(e);
        } else {
            for_mask!(mask, op_delete, w, e);
        }
        if let Some(r) = self.m.row_mut(e) {
            for (i, x) in r.iter_mut().enumerate() {
                if mask >> i & 1 == 1 {
                    *x = None;
                }
            }
        }
        Ok(())
    }

    pub fn destroy(&mut self, e: Entity) -> Result<(), String> {
        let ok = alloc::tagged(|| self.w.destroy(e));
        let alive = self.m.alive(e);
        if ok != alive {
            err!("destroy({e:?}) returned {ok}, but the entity was {}", if alive { "alive" } else { "not alive" });
        }
        if alive {
            self.m.ents.retain(|x| x.0 != e);
            self.m.dead.push(e);
            self.m.recyclable += 1;
        }
        Ok(())
    }

    pub fn create(&mut self, mask: u8) -> Result<Entity, String> {
        let mut row: Row = [None; N];
        let w = &mut self.w;
        let e = if mask == 0 { alloc::tagged(|| w.create(())) } else { for_mask!(mask, op_create, w, row) };
        self.check_issue(e, "create")?;
        self.m.ents.push((e, row));
        Ok(e)
    }

    pub fn extend(&mut self, mask: u8, n: u8) -> Result<Vec<Entity>, String> {
        let mut rows: Vec<Row> = Vec::new();
        let hint = (self.m.ents.len() as u8).wrapping_add(n) % 4;
        let w = &mut self.w;
        let es = if mask == 0 {
            alloc::tagged(|| {
                let s = w.extend(Hinted { left: n, hint, f: || alloc::untagged(|| rows.push([None; N])) });
                alloc::untagged(|| s.to_vec())
            })
        } else {
            for_mask!(mask, op_extend, w, n, hint, rows)
        };
        if es.len() != n as usize || rows.len() != n as usize {
            err!("extend returned {} entities for {n} items ({} taken from the iterator)", es.len(), rows.len());
        }
        for (e, row) in es.iter().zip(rows) {
            self.check_issue(*e, "extend")?;
            self.m.ents.push((*e, row));
        }
        Ok(es)
    }

    pub fn create_atomic(&mut self) -> Result<Entity, String> {
        let e = alloc::tagged(|| self.w.create_atomic());
        self.check_issue(e, "create_atomic")?;
        self.m.pending.push(e);
        Ok(e)
    }

    pub fn apply(&mut self, op: Op) -> Result<(), String> {
        match op {
            Op::Create(mask) => {
                self.create(mask)?;
            }
            Op::Extend(mask, n) => {
                self.extend(mask, n)?;
            }
            Op::Insert(s, mask) => {
                let e = self.slot(s)?;
                self.insert(e, mask)?;
            }
            Op::Remove(s, mask) => {
                let e = self.slot(s)?;
                self.remove(e, mask)?;
            }
            Op::Delete(s, mask) => {
                let e = self.slot(s)?;
                self.delete(e, mask)?;
            }
            Op::Destroy(s) => {
                let e = self.slot(s)?;
                self.destroy(e)?;
            }
            Op::Atomic => {
                self.create_atomic()?;
            }
            Op::Maintain => {
                alloc::tagged(|| self.w.maintain());
                for e in std::mem::take(&mut self.m.pending) {
                    self.m.ents.push((e, [None; N]));
                }
            }
            Op::Clear => {
                alloc::tagged(|| self.w.clear());
                let m = &mut self.m;
                m.dead.extend(m.ents.drain(..).map(|x| x.0));
                m.dead.append(&mut m.pending);
            }
            Op::Reset => {
                alloc::tagged(|| self.w.reset());
                let m = &mut self.m;
                m.ents.clear();
                m.pending.clear();
                m.dead.clear();
                m.issued.clear();
                m.recyclable = 0;
            }
            Op::Layout(k) => {
                alloc::tagged(|| {
                    let l = layout(k as usize);
                    self.w.set_layout(&l);
                });
                self.m.layout = k;
                self.m.registered |= LAYOUTS[k as usize].iter().fold(0, |a, m| a | m);
            }
            Op::Register(c) => {
                let new = alloc::tagged(|| self.w.register_dyn(component_data(c as usize)));
                let expect = self.m.registered >> c & 1 == 0;
                if new != expect {
                    err!("registering {} returned {new}, expected {expect}", NAMES[c as usize]);
                }
                self.m.registered |= 1 << c;
            }
        }
        Ok(())
    }

    /// Errors noticed by the allocator or by the component types.
    pub fn side_errors() -> Result<(), String> {
        if let Some(e) = ledger::take_error() {
            return Err(e);
        }
        if let Some(e) = alloc::take_error() {
            return Err(format!("memory error: {} ({:#x}, {:#x})", e.what, e.a, e.b));
        }
        Ok(())
    }

    /// Drops the world and checks that nothing is leaked.
    pub fn finish(self) -> Result<(), String> {
        let Self { w, .. } = self;
        alloc::tagged(|| drop(w));
        Self::side_errors()?;
        let live = ledger::live_count();
        if live != 0 || ledger::live_zst() != 0 {
            err!(
                "{live} component values and {} zero-sized ones were never dropped although the world was",
                ledger::live_zst()
            );
        }
        Ok(())
    }

    /// After `finish`: checks the memory balance of the world.
    pub fn check_balance() -> Result<(), String> {
        let (blocks, bytes) = alloc::balance();
        if blocks != 0 || bytes != 0 {
            err!("dropping the world leaked {blocks} blocks ({bytes} bytes)");
        }
        alloc::flush_quarantine();
        Self::side_errors()
    }

    /// Key of the state: the debug output of the world up to component metadata, the order of all
    /// entities in all storages, and what the operations of the harness refer to. If `relabel`,
    /// states that differ by a renaming of indexes have the same key.
    pub fn key(&self, relabel: bool) -> u128 {
        thread_local! {
            static BUF: RefCell<String> = const { RefCell::new(String::new()) };
        }
        struct Sink<'a>(&'a mut String);
        impl fmt::Write for Sink<'_> {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                if s == "metadata" {
                    return Err(fmt::Error);
                }
                self.0.push_str(s);
                Ok(())
            }
        }
        BUF.with_borrow_mut(|buf| {
            buf.clear();
            let _ = write!(Sink(buf), "{:?}", self.w);
            let mut h = Hash::default();
            let mut labels: Vec<u32> = Vec::new();
            let mut ent = |h: &mut Hash, index: u32, version: u32| {
                let label = if relabel {
                    match labels.iter().position(|x| *x == index) {
                        Some(p) => p as u32,
                        None => {
                            labels.push(index);
                            (labels.len() - 1) as u32
                        }
                    }
                } else {
                    index
                };
                h.word(u64::from(label) << 32 | u64::from(version));
            };
            // Scan for "index: N, version: M".
            let b = buf.as_bytes();
            let mut i = 0;
            let mut start = 0;
            while i + 7 < b.len() {
                if b[i] == b'i' && b[i..].starts_with(b"index: ") {
                    let (n, j) = number(b, i + 7);
                    let rest = b", version: ";
                    if b[j..].starts_with(rest) {
                        let (v, k) = number(b, j + rest.len());
                        h.bytes(&b[start..i]);
                        ent(&mut h, n as u32, v as u32);
                        start = k;
                        i = k;
                        continue;
                    }
                }
                i += 1;
            }
            h.bytes(&b[start..]);
            for e in self.w.entities() {
                ent(&mut h, e.index, e.version.0.get());
            }
            macro_rules! views {
                ($($T:ident)*) => {$(
                    if self.m.registered >> $T::I & 1 == 1 {
                        h.word(0xfeed + $T::I as u64);
                        for e in self.w.borrow::<$T>().entities() {
                            ent(&mut h, e.index, e.version.0.get());
                        }
                    }
                )*};
            }
            views!(A B C D);
            h.word(0xabcd);
            // Living entities in creation order: operations refer to them by position.
            for e in &self.m.ents {
                ent(&mut h, e.0.index, e.0.version.0.get());
                h.word(u64::from(row_mask(&e.1)));
            }
            h.word(0xabce);
            for e in &self.m.pending {
                ent(&mut h, e.index, e.version.0.get());
            }
            // Versions given out so far.
            for i in 0..self.m.max_index().map_or(0, |i| i + 1) {
                ent(&mut h, i, self.m.latest(i));
            }
            h.word(u64::from(self.m.registered) << 8 | u64::from(self.m.layout));
            h.word(self.m.recyclable as u64);
            h.word(self.m.max_index().map_or(0, |i| u64::from(i) + 1));
            h.finish()
        })
    }
}

impl Exec {
    /// Key of what the storages contain, up to a renaming of entities.
    pub fn content_key(&self) -> u128 {
        let mut h = Hash::default();
        let es = self.w.entities();
        let many: HashMap<Entity, usize> =
            if es.len() > 256 { es.iter().copied().zip(0..).collect() } else { HashMap::new() };
        let at = |e: &Entity| if es.len() > 256 { many.get(e).copied() } else { es.iter().position(|o| o == e) };
        let put = |h: &mut Hash, list: &[Entity]| {
            h.word(0xfeed << 32 | list.len() as u64);
            for e in list {
                h.word(at(e).map_or(u64::MAX, |p| p as u64));
            }
        };
        put(&mut h, es);
        macro_rules! views {
            ($($T:ident)*) => {$(
                if self.m.registered >> $T::I & 1 == 1 {
                    h.word($T::I as u64);
                    put(&mut h, self.w.borrow::<$T>().entities());
                }
            )*};
        }
        views!(A B C D);
        h.word(u64::from(self.m.registered) << 8 | u64::from(self.m.layout));
        h.finish()
    }
}

fn number(b: &[u8], mut i: usize) -> (u64, usize) {
    let mut n = 0_u64;
    while i < b.len() && b[i].is_ascii_digit() {
        n = n.wrapping_mul(10).wrapping_add(u64::from(b[i] - b'0'));
        i += 1;
    }
    (n, i)
}

/// 128-bit hash.
pub struct Hash {
    a: u64,
    b: u64,
}

impl Default for Hash {
    fn default() -> Self {
        Self { a: 0x9e37_79b9_7f4a_7c15, b: 0xd1b5_4a32_d192_ed03 }
    }
}

impl Hash {
    pub fn word(&mut self, x: u64) {
        self.a = (self.a ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(29) ^ x;
        self.b = (self.b.rotate_left(23) ^ x).wrapping_mul(0xc4ce_b9fe_1a85_ec53).wrapping_add(self.a >> 31);
    }

    pub fn bytes(&mut self, s: &[u8]) {
        self.word(s.len() as u64);
        for c in s.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.word(u64::from_le_bytes(x));
        }
    }

    pub fn finish(mut self) -> u128 {
        self.word(0x1234_5678);
        self.word(0x9abc_def0);
        u128::from(self.a ^ self.a >> 32) << 64 | u128::from(self.b ^ self.b >> 29)
    }
}

/// Whether the layout has a group with exactly these components.
pub fn is_group(layout: u8, mask: u8) -> bool {
    LAYOUTS[layout as usize].contains(&mask)
}
