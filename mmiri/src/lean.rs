//! A world driven through its safe interface, without a model: made to be interpreted.

use mc::exec::LAYOUTS;
use mc::op::Op;
use rayon::iter::ParallelIterator;
use sparsey::component::{Component, ComponentData, ComponentSet, GroupLayout};
use sparsey::query::Query;
use sparsey::{Entity, World};
use std::cell::Cell;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static NEXT: Cell<u32> = const { Cell::new(0) };
    /// The destructor call that panics, counting down.
    static FAULT: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}

fn next() -> u32 {
    NEXT.set(NEXT.get() + 1);
    NEXT.get()
}

fn dropped() {
    let n = FAULT.get();
    if n > 0 {
        FAULT.set(n - 1);
        if n == 1 {
            FIRED.set(true);
            if !std::thread::panicking() {
                std::panic::resume_unwind(Box::new(()));
            }
        }
    }
}

/// A component type.
pub trait Comp: Component {
    fn make() -> Self;
    fn read(&self) -> u32;
    fn write(&mut self);
}

/// Owns memory.
pub struct A(Box<u32>);
impl Comp for A {
    fn make() -> Self {
        Self(Box::new(next()))
    }
    fn read(&self) -> u32 {
        *self.0
    }
    fn write(&mut self) {
        *self.0 += 1;
    }
}
impl Drop for A {
    fn drop(&mut self) {
        *self.0 += 1;
        dropped();
    }
}

/// Over-aligned.
#[repr(align(64))]
pub struct B(u32);
impl Comp for B {
    fn make() -> Self {
        Self(next())
    }
    fn read(&self) -> u32 {
        self.0
    }
    fn write(&mut self) {
        self.0 += 1;
    }
}
impl Drop for B {
    fn drop(&mut self) {
        self.0 += 1;
        dropped();
    }
}

/// Plain data, with padding.
#[derive(Clone, Copy)]
pub struct C(u8, u16);
impl Comp for C {
    fn make() -> Self {
        Self(1, next() as u16)
    }
    fn read(&self) -> u32 {
        u32::from(self.0) + u32::from(self.1)
    }
    fn write(&mut self) {
        self.1 = 5;
    }
}

/// Zero-sized.
pub struct D;
impl Comp for D {
    fn make() -> Self {
        Self
    }
    fn read(&self) -> u32 {
        0
    }
    fn write(&mut self) {
        *self = Self;
    }
}
impl Drop for D {
    fn drop(&mut self) {
        dropped();
    }
}

/// A tuple of components.
trait Tuple: ComponentSet {
    fn make() -> Self;
}
impl Tuple for () {
    fn make() -> Self {}
}
macro_rules! tuples {
    ($($($T:ident)*;)*) => {
        $(impl Tuple for ($($T,)*) {
            fn make() -> Self {
                ($($T::make(),)*)
            }
        })*
    };
}
tuples! {
    A; B; A B; C; A C; B C; A B C; D; A D; B D; A B D; C D; A C D; B C D; A B C D;
}

/// `$f::<tuple>(args)` for the tuple of a mask.
macro_rules! by_mask {
    ($m:expr, $f:ident($($a:expr),*)) => {
        match $m {
            0 => $f::<()>($($a),*),
            1 => $f::<(A,)>($($a),*),
            2 => $f::<(B,)>($($a),*),
            3 => $f::<(A, B)>($($a),*),
            4 => $f::<(C,)>($($a),*),
            5 => $f::<(A, C)>($($a),*),
            6 => $f::<(B, C)>($($a),*),
            7 => $f::<(A, B, C)>($($a),*),
            8 => $f::<(D,)>($($a),*),
            9 => $f::<(A, D)>($($a),*),
            10 => $f::<(B, D)>($($a),*),
            11 => $f::<(A, B, D)>($($a),*),
            12 => $f::<(C, D)>($($a),*),
            13 => $f::<(A, C, D)>($($a),*),
            14 => $f::<(B, C, D)>($($a),*),
            _ => $f::<(A, B, C, D)>($($a),*),
        }
    };
}

fn create<T: Tuple>(w: &mut World) -> Entity {
    w.create(T::make())
}
fn extend<T: Tuple>(w: &mut World, n: u8) -> Vec<Entity> {
    w.extend((0..n).map(|_| T::make())).to_vec()
}
fn insert<T: Tuple>(w: &mut World, e: Entity) {
    assert!(w.insert(e, T::make()));
}
fn remove<T: Tuple>(w: &mut World, e: Entity) {
    let _gone = w.remove::<T>(e);
}
fn delete<T: Tuple>(w: &mut World, e: Entity) {
    w.delete::<T>(e);
}

fn data(i: usize) -> ComponentData {
    match i {
        0 => ComponentData::new::<A>(),
        1 => ComponentData::new::<B>(),
        2 => ComponentData::new::<C>(),
        _ => ComponentData::new::<D>(),
    }
}

fn layout(k: u8) -> GroupLayout {
    let mut l = GroupLayout::default();
    for m in LAYOUTS[k as usize] {
        let g: Vec<_> = (0..4).filter(|i| m >> i & 1 == 1).map(data).collect();
        l.add_group_dyn(&g);
    }
    l
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum Step {
    Op(Op),
    /// An operation in which the n-th destructor call panics, counting from 1.
    Fault(Op, u8),
    /// Uses the world in every way.
    Use,
}

/// The bounds of an exploration.
pub struct Cfg {
    pub name: &'static str,
    pub layout: u8,
    pub registered: u8,
    pub setup: Vec<Op>,
    pub ops: Vec<Op>,
    pub faults: bool,
    pub max_live: usize,
    /// At most this many states.
    pub states: usize,
}

pub struct Lean {
    pub w: World,
    pub registered: u8,
    pub layout: u8,
    ents: Vec<Entity>,
    pending: usize,
}

impl Lean {
    pub fn new(k: u8, registered: u8) -> Self {
        let mut b = World::builder();
        b.set_layout(layout(k));
        let mut all = registered;
        for m in LAYOUTS[k as usize] {
            all |= m;
        }
        for i in 0..4 {
            if registered >> i & 1 == 1 {
                b.register_dyn(data(i));
            }
        }
        Self { w: b.build(), registered: all, layout: k, ents: Vec::new(), pending: 0 }
    }

    pub fn applicable(&self, op: Op, max_live: usize) -> bool {
        let room = |n: u8| self.ents.len() + self.pending + n as usize <= max_live;
        match op {
            Op::Create(m) => m & !self.registered == 0 && room(1),
            Op::Extend(m, n) => m & !self.registered == 0 && room(n),
            Op::Insert(s, m) | Op::Remove(s, m) | Op::Delete(s, m) => {
                (s as usize) < self.ents.len() && m & !self.registered == 0
            }
            Op::Destroy(s) => (s as usize) < self.ents.len(),
            Op::Atomic => room(1),
            _ => true,
        }
    }

    pub fn op(&mut self, op: Op) {
        let w = &mut self.w;
        match op {
            Op::Create(m) => self.ents.push(by_mask!(m, create(w))),
            Op::Extend(m, n) => self.ents.extend(by_mask!(m, extend(w, n))),
            Op::Insert(s, m) => by_mask!(m, insert(w, self.ents[s as usize])),
            Op::Remove(s, m) => by_mask!(m, remove(w, self.ents[s as usize])),
            Op::Delete(s, m) => by_mask!(m, delete(w, self.ents[s as usize])),
            Op::Destroy(s) => {
                let e = self.ents.remove(s as usize);
                w.destroy(e);
            }
            Op::Atomic => {
                self.pending += 1;
                let _ = w.create_atomic();
            }
            Op::Maintain => {
                w.maintain();
                self.sync();
            }
            Op::Clear => {
                self.ents.clear();
                self.pending = 0;
                w.clear();
            }
            Op::Reset => {
                self.ents.clear();
                self.pending = 0;
                w.reset();
            }
            Op::Layout(k) => {
                self.layout = k;
                for m in LAYOUTS[k as usize] {
                    self.registered |= m;
                }
                w.set_layout(&layout(k));
            }
            Op::Register(i) => {
                self.registered |= 1 << i;
                w.register_dyn(data(i as usize));
            }
        }
    }

    /// Takes the living entities from the world.
    fn sync(&mut self) {
        self.pending = 0;
        self.ents = self.w.entities().to_vec();
    }

    /// Returns whether the fault of the step fired (or there is none).
    pub fn step(&mut self, s: Step) -> bool {
        match s {
            Step::Op(op) => self.op(op),
            Step::Fault(op, n) => {
                FIRED.set(false);
                FAULT.set(u32::from(n));
                let r = catch_unwind(AssertUnwindSafe(|| self.op(op)));
                FAULT.set(0);
                drop(r);
                self.w.maintain();
                self.sync();
                return FIRED.get();
            }
            Step::Use => self.used(),
        }
        true
    }

    /// What is known of the state of the world, up to a renaming of entities and without values.
    pub fn key(&self) -> String {
        let es = self.w.entities();
        let mut s = String::new();
        let at = |e: &Entity| es.iter().position(|o| o == e).map_or(99, |i| i);
        write!(s, "{} {} {} {}", self.layout, self.registered, self.pending, es.len()).unwrap();
        for e in &self.ents {
            write!(s, " {}", at(e)).unwrap();
        }
        macro_rules! list {
            ($i:literal, $T:ty) => {
                if self.registered >> $i & 1 == 1 {
                    s.push('|');
                    for e in self.w.borrow::<$T>().entities() {
                        write!(s, " {}", at(e)).unwrap();
                    }
                }
            };
        }
        list!(0, A);
        list!(1, B);
        list!(2, C);
        list!(3, D);
        // Which indexes are free, in number, and how the indexes are distributed.
        let max = es.iter().map(|e| e.index).max().unwrap_or(0) as usize;
        write!(s, "|{max}").unwrap();
        s
    }

    // -----------------------------------------------------------------------------------------

    fn view<T: Comp>(&self) {
        {
            let v = self.w.borrow::<T>();
            let o = self.w.borrow::<T>();
            for x in v.as_slice() {
                x.read();
            }
            for e in &self.ents {
                if v.contains(*e) {
                    v[*e].read();
                }
                if let Some(x) = o.get(*e) {
                    x.read();
                }
            }
            for (_, x) in v.entities().iter().zip(o.as_slice()) {
                x.read();
            }
        }
        let mut v = self.w.borrow_mut::<T>();
        for e in &self.ents {
            if let Some(x) = v.get_mut(*e) {
                x.write();
                x.read();
            }
            if v.contains(*e) {
                v[*e].write();
                v[*e].read();
                v[*e] = T::make();
            }
        }
        for x in v.as_mut_slice() {
            x.write();
            *x = T::make();
        }
        for x in v.as_slice() {
            x.read();
        }
    }

    fn query<G, I, E>(&self)
    where
        G: Query,
        I: Query,
        E: Query,
        for<'a> G::Item<'a>: Touch + Send,
        for<'a> G::Slice<'a>: Touch,
    {
        let mut q = self.w.query_all::<G>().include::<I>().exclude::<E>();
        {
            // All items at once.
            let mut items: Vec<G::Item<'_>> = q.iter().collect();
            items.iter_mut().for_each(Touch::touch);
            items.iter_mut().rev().for_each(Touch::touch);
        }
        {
            let mut it = q.iter();
            let mut first = it.next();
            first.touch();
            let rest = it.fold(Vec::new(), |mut v, mut i| {
                i.touch();
                first.touch();
                v.push(i);
                v
            });
            for mut i in rest {
                i.touch();
            }
            first.touch();
        }
        {
            let mut items: Vec<G::Item<'_>> = q.par_iter().collect();
            items.iter_mut().for_each(Touch::touch);
            items.iter_mut().rev().for_each(Touch::touch);
        }
        if let Some(mut s) = q.slice() {
            s.touch();
            s.touch();
        }
        q.for_each(|mut i| i.touch());
        drop(q);
        let mut one = self.w.query_one::<G>().include::<I>().exclude::<E>();
        for e in &self.ents {
            one.contains(*e);
            if let Some(mut i) = one.get(*e) {
                i.touch();
                i.touch();
            }
        }
    }

    fn used(&mut self) {
        macro_rules! with {
            ($need:literal; $($G:ty, $I:ty, $E:ty;)*) => {
                if self.registered & $need == $need {
                    $(self.query::<$G, $I, $E>();)*
                }
            };
        }
        if self.registered & 1 == 1 {
            self.view::<A>();
        }
        if self.registered & 2 == 2 {
            self.view::<B>();
        }
        if self.registered & 4 == 4 {
            self.view::<C>();
        }
        if self.registered & 8 == 8 {
            self.view::<D>();
        }
        with!(0b0001;
            (Entity, &mut A), (), ();
            &A, (), ();
        );
        with!(0b0011;
            (&mut A, &mut B), (), ();
            (&B, &mut A, Entity), (), ();
            &mut B, (), &A;
            (&mut A, Option<&mut B>), (), ();
        );
        with!(0b0111;
            (&mut C, &A, &mut B), (), ();
            (&mut B, &mut A), (), &C;
            (&A, &B), (), &C;
            (&A, &mut B, Option<&C>), (), ();
            &mut A, &B, &C;
        );
        with!(0b1000;
            (&mut D, Entity), (), ();
        );
        with!(0b1100;
            (&mut C, &mut D), (), ();
        );
        with!(0b1111;
            (&mut D, &mut A, &B, &mut C), (), ();
            (&mut A, &mut B, &mut C), (), &D;
            (Entity, &C, &A), &B, &D;
            (&A, &B, Option<&mut D>), &C, ();
        );
    }
}

/// Something that can be read and written.
pub trait Touch {
    fn touch(&mut self);
}
impl Touch for () {
    fn touch(&mut self) {}
}
impl Touch for Entity {
    fn touch(&mut self) {
        let _ = *self == Entity::with_index(0);
    }
}
impl<T: Comp> Touch for &T {
    fn touch(&mut self) {
        self.read();
    }
}
impl<T: Comp> Touch for &mut T {
    fn touch(&mut self) {
        self.write();
        self.read();
    }
}
impl<T: Touch> Touch for Option<T> {
    fn touch(&mut self) {
        if let Some(x) = self {
            x.touch();
        }
    }
}
impl<T: Comp> Touch for &[T] {
    fn touch(&mut self) {
        for x in *self {
            x.read();
        }
    }
}
impl<T: Comp> Touch for &mut [T] {
    fn touch(&mut self) {
        for x in self.iter_mut() {
            x.write();
            x.read();
        }
    }
}
impl Touch for &[Entity] {
    fn touch(&mut self) {
        for e in *self {
            let _ = *e == Entity::with_index(0);
        }
    }
}
macro_rules! touch {
    ($($T:ident $i:tt),*) => {
        impl<$($T: Touch),*> Touch for ($($T,)*) {
            fn touch(&mut self) {
                $(self.$i.touch();)*
            }
        }
    };
}
touch!(S 0);
touch!(S 0, T 1);
touch!(S 0, T 1, U 2);
touch!(S 0, T 1, U 2, V 3);

pub fn begin() {
    NEXT.set(0);
    FAULT.set(0);
    rayon_core::configure(4, 0, true);
}
