//! A table of queries, and type-erased observations of each.
//!
//! A crate of its own, because it is slow to compile.

pub mod qcheck;
pub mod split;

use mc::comps::{Comp, A, B, C, D};
use sparsey::entity::Entity;
use sparsey::query::{Query, QueryPart};
use sparsey::World;

pub const W: usize = 5;
pub const NONE: u64 = u64::MAX;
/// Value of a part that is not written.
pub const SAME: u64 = u64::MAX - 1;
/// What the parts of an item show.
pub type Item = [u64; W];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Entity,
    Ref,
    Mut,
    OptRef,
    OptMut,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Part {
    pub kind: Kind,
    pub comp: usize,
}

pub fn pack(e: Entity) -> u64 {
    u64::from(e.index) << 32 | u64::from(e.version.0.get())
}

pub trait PartQ: QueryPart + 'static {
    const PART: Part;
    fn obs1(i: &<Self as QueryPart>::Item<'_>) -> u64;
    fn write1(i: <Self as QueryPart>::Item<'_>) -> u64;
    fn slice1(s: &<Self as QueryPart>::Slice<'_>) -> Option<Vec<u64>>;
    fn slice_write1(s: <Self as QueryPart>::Slice<'_>) -> Option<Vec<u64>>;
}

fn put<T: Comp>(r: &mut T) -> u64 {
    let (new, v) = T::make();
    *r = new;
    u64::from(v)
}

impl PartQ for Entity {
    const PART: Part = Part { kind: Kind::Entity, comp: 9 };
    fn obs1(i: &Entity) -> u64 {
        pack(*i)
    }
    fn write1(_: Entity) -> u64 {
        SAME
    }
    fn slice1(s: &&[Entity]) -> Option<Vec<u64>> {
        Some(s.iter().map(|e| pack(*e)).collect())
    }
    fn slice_write1(_: &[Entity]) -> Option<Vec<u64>> {
        None
    }
}

impl<T: Comp> PartQ for &'static T {
    const PART: Part = Part { kind: Kind::Ref, comp: T::I };
    fn obs1(i: &&T) -> u64 {
        u64::from(i.val())
    }
    fn write1(_: &T) -> u64 {
        SAME
    }
    fn slice1(s: &&[T]) -> Option<Vec<u64>> {
        Some(s.iter().map(|c| u64::from(c.val())).collect())
    }
    fn slice_write1(_: &[T]) -> Option<Vec<u64>> {
        None
    }
}

impl<T: Comp> PartQ for &'static mut T {
    const PART: Part = Part { kind: Kind::Mut, comp: T::I };
    fn obs1(i: &&mut T) -> u64 {
        u64::from(i.val())
    }
    fn write1(i: &mut T) -> u64 {
        put(i)
    }
    fn slice1(s: &&mut [T]) -> Option<Vec<u64>> {
        Some(s.iter().map(|c| u64::from(c.val())).collect())
    }
    fn slice_write1(s: &mut [T]) -> Option<Vec<u64>> {
        Some(s.iter_mut().map(put).collect())
    }
}

impl<T: Comp> PartQ for Option<&'static T> {
    const PART: Part = Part { kind: Kind::OptRef, comp: T::I };
    fn obs1(i: &Option<&T>) -> u64 {
        i.map_or(NONE, |c| u64::from(c.val()))
    }
    fn write1(_: Option<&T>) -> u64 {
        SAME
    }
    fn slice1(_: &()) -> Option<Vec<u64>> {
        None
    }
    fn slice_write1(_: ()) -> Option<Vec<u64>> {
        None
    }
}

impl<T: Comp> PartQ for Option<&'static mut T> {
    const PART: Part = Part { kind: Kind::OptMut, comp: T::I };
    fn obs1(i: &Option<&mut T>) -> u64 {
        i.as_ref().map_or(NONE, |c| u64::from(c.val()))
    }
    fn write1(i: Option<&mut T>) -> u64 {
        i.map_or(SAME, put)
    }
    fn slice1(_: &()) -> Option<Vec<u64>> {
        None
    }
    fn slice_write1(_: ()) -> Option<Vec<u64>> {
        None
    }
}

/// A query that can be observed.
pub trait QQ: Query + 'static {
    const PARTS: &'static [Part];
    fn obs(i: &<Self as Query>::Item<'_>) -> Item;
    fn write(i: <Self as Query>::Item<'_>) -> Item;
    fn slices(s: &<Self as Query>::Slice<'_>) -> Vec<Option<Vec<u64>>>;
    fn slice_write(s: <Self as Query>::Slice<'_>) -> Vec<Option<Vec<u64>>>;
}

impl QQ for () {
    const PARTS: &'static [Part] = &[];
    fn obs((): &()) -> Item {
        [0; W]
    }
    fn write((): ()) -> Item {
        [SAME; W]
    }
    fn slices((): &()) -> Vec<Option<Vec<u64>>> {
        vec![]
    }
    fn slice_write((): ()) -> Vec<Option<Vec<u64>>> {
        vec![]
    }
}

macro_rules! impl_bare {
    ($([$($g:tt)*] $P:ty),*) => {$(
        impl<$($g)*> QQ for $P {
            const PARTS: &'static [Part] = &[<$P as PartQ>::PART];
            fn obs(i: &<Self as Query>::Item<'_>) -> Item {
                let mut o = [0; W];
                o[0] = <$P as PartQ>::obs1(i);
                o
            }
            fn write(i: <Self as Query>::Item<'_>) -> Item {
                let mut o = [SAME; W];
                o[0] = <$P as PartQ>::write1(i);
                o
            }
            fn slices(s: &<Self as Query>::Slice<'_>) -> Vec<Option<Vec<u64>>> {
                vec![<$P as PartQ>::slice1(s)]
            }
            fn slice_write(s: <Self as Query>::Slice<'_>) -> Vec<Option<Vec<u64>>> {
                vec![<$P as PartQ>::slice_write1(s)]
            }
        }
    )*};
}

impl_bare!(
    [] Entity,
    [T: Comp] &'static T,
    [T: Comp] &'static mut T,
    [T: Comp] Option<&'static T>,
    [T: Comp] Option<&'static mut T>
);

macro_rules! impl_tuple {
    ($($P:ident $i:tt),*) => {
        impl<$($P: PartQ),*> QQ for ($($P,)*) {
            const PARTS: &'static [Part] = &[$($P::PART),*];
            fn obs(i: &<Self as Query>::Item<'_>) -> Item {
                let mut o = [0; W];
                $(o[$i] = $P::obs1(&i.$i);)*
                o
            }
            fn write(i: <Self as Query>::Item<'_>) -> Item {
                let mut o = [SAME; W];
                $(o[$i] = $P::write1(i.$i);)*
                o
            }
            fn slices(s: &<Self as Query>::Slice<'_>) -> Vec<Option<Vec<u64>>> {
                vec![$($P::slice1(&s.$i)),*]
            }
            fn slice_write(s: <Self as Query>::Slice<'_>) -> Vec<Option<Vec<u64>>> {
                vec![$($P::slice_write1(s.$i)),*]
            }
        }
    };
}

impl_tuple!(P0 0);
impl_tuple!(P0 0, P1 1);
impl_tuple!(P0 0, P1 1, P2 2);
impl_tuple!(P0 0, P1 1, P2 2, P3 3);
impl_tuple!(P0 0, P1 1, P2 2, P3 3, P4 4);

/// What a query shows.
#[derive(Default)]
pub struct Seen {
    pub next: Vec<Item>,
    pub fold: Vec<Item>,
    pub for_each: Vec<Item>,
    pub into_iter: Vec<Item>,
    pub dense: bool,
    pub sparse: bool,
    pub slice: Option<Vec<Option<Vec<u64>>>>,
    /// contains, get, map for every handle.
    pub one: Vec<(bool, Option<Item>, Option<Item>)>,
}

fn see<G: QQ, I: QQ, E: QQ>(w: &World, handles: &[Entity]) -> Seen {
    let mut s = Seen::default();
    {
        let mut q = w.query_all::<G>().include::<I>().exclude::<E>();
        let mut it = q.iter();
        s.dense = it.is_dense();
        s.sparse = it.is_sparse();
        while let Some(i) = it.next() {
            s.next.push(G::obs(&i));
        }
        q.iter().fold((), |(), i| s.fold.push(G::obs(&i)));
        for i in &mut q {
            s.into_iter.push(G::obs(&i));
        }
        q.for_each(|i| s.for_each.push(G::obs(&i)));
        s.slice = q.slice().map(|x| G::slices(&x));
    }
    let mut q = w.query_one::<G>().exclude::<E>().include::<I>();
    for e in handles {
        let c = q.contains(*e);
        let g = q.get(*e).map(|i| G::obs(&i));
        let m = q.map(*e, |i| G::obs(&i));
        s.one.push((c, g, m));
    }
    s
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WriteBy {
    Next,
    Fold,
    One,
    Slice,
}

/// Writes through all mutable parts; returns the items before and the values written.
fn write<G: QQ, I: QQ, E: QQ>(w: &World, by: WriteBy, handles: &[Entity]) -> Option<Vec<(Item, Item)>> {
    let mut out = Vec::new();
    match by {
        WriteBy::Next => {
            let mut q = w.query_all::<G>().exclude::<E>().include::<I>();
            for i in &mut q {
                let o = G::obs(&i);
                out.push((o, G::write(i)));
            }
        }
        WriteBy::Fold => {
            let mut q = w.query_all::<G>().exclude::<E>().include::<I>();
            q.for_each(|i| {
                let o = G::obs(&i);
                out.push((o, G::write(i)));
            });
        }
        WriteBy::One => {
            let mut q = w.query_one::<G>().include::<I>().exclude::<E>();
            for e in handles {
                if let Some(i) = q.get(*e) {
                    let o = G::obs(&i);
                    out.push((o, G::write(i)));
                }
            }
        }
        WriteBy::Slice => {
            let mut q = w.query_all::<G>().include::<I>().exclude::<E>();
            let items: Vec<Item> = q.iter().map(|i| G::obs(&i)).collect();
            let s = q.slice()?;
            let written = G::slice_write(s);
            for (k, o) in items.into_iter().enumerate() {
                let mut n = [SAME; W];
                for (p, x) in written.iter().enumerate() {
                    if let Some(x) = x {
                        n[p] = x.get(k).copied().unwrap_or(NONE);
                    }
                }
                out.push((o, n));
            }
        }
    }
    Some(out)
}

pub struct Desc {
    pub name: fn() -> String,
    pub parts: &'static [Part],
    /// Components required by the filters.
    pub inc: u8,
    pub exc: u8,
    /// The filters exclude everything.
    pub nothing: bool,
    pub see: fn(&World, &[Entity]) -> Seen,
    pub write: Option<fn(&World, WriteBy, &[Entity]) -> Option<Vec<(Item, Item)>>>,
}

impl Desc {
    /// Components that matching entities must have.
    pub fn required(&self) -> u8 {
        let mut m = self.inc;
        for p in self.parts {
            if matches!(p.kind, Kind::Ref | Kind::Mut) {
                m |= 1 << p.comp;
            }
        }
        m
    }

    pub fn used(&self) -> u8 {
        let mut m = self.inc | self.exc;
        for p in self.parts {
            if p.kind != Kind::Entity {
                m |= 1 << p.comp;
            }
        }
        m
    }

    pub fn has_entity(&self) -> bool {
        self.parts.iter().any(|p| p.kind == Kind::Entity)
    }

    pub fn writes(&self) -> bool {
        self.parts.iter().any(|p| matches!(p.kind, Kind::Mut | Kind::OptMut))
    }

    pub fn matches(&self, mask: u8) -> bool {
        !self.nothing && mask & self.required() == self.required() && mask & self.exc == 0
    }

    /// The item of an entity.
    pub fn item(&self, e: Entity, row: &[Option<u32>]) -> Item {
        let mut o = [0; W];
        for (i, p) in self.parts.iter().enumerate() {
            o[i] = match p.kind {
                Kind::Entity => pack(e),
                _ => row[p.comp].map_or(NONE, u64::from),
            };
        }
        o
    }
}

fn filter(parts: &[Part]) -> u8 {
    parts.iter().filter(|p| matches!(p.kind, Kind::Ref | Kind::Mut)).map(|p| 1 << p.comp).fold(0, |a, b| a | b)
}

pub fn desc<G: QQ, I: QQ, E: QQ>() -> Desc {
    Desc {
        name: || {
            let n = |s: &str| s.replace("mc::comps::", "").replace("sparsey::entity::", "").replace("core::option::", "");
            format!(
                "query<{}>.include<{}>.exclude<{}>",
                n(std::any::type_name::<G>()),
                n(std::any::type_name::<I>()),
                n(std::any::type_name::<E>())
            )
        },
        parts: G::PARTS,
        inc: filter(I::PARTS),
        exc: filter(E::PARTS),
        nothing: E::PARTS.iter().any(|p| matches!(p.kind, Kind::OptMut | Kind::OptRef | Kind::Entity)),
        see: see::<G, I, E>,
        write: None,
    }
}

pub fn desc_full<G: QQ, I: QQ, E: QQ>() -> Desc {
    Desc { write: Some(write::<G, I, E>), ..desc::<G, I, E>() }
}

macro_rules! leaf {
    // Single parts and filters are also used without a tuple.
    ($o:ident [$g:ty,] [$($i:ty,)*] [$($x:ty,)*]) => {
        $o.push(desc::<$g, one!([$($i,)*]), one!([$($x,)*])>());
        $o.push(desc_full::<(Entity, $g,), ($($i,)*), ($($x,)*)>());
    };
    ($o:ident [$($g:ty,)*] [$($i:ty,)*] [$($x:ty,)*]) => {
        $o.push(desc::<($($g,)*), one!([$($i,)*]), one!([$($x,)*])>());
        $o.push(desc_full::<(Entity, $($g,)*), ($($i,)*), ($($x,)*)>());
    };
}

macro_rules! one {
    ([$i:ty,]) => { $i };
    ([$($i:ty,)*]) => { ($($i,)*) };
}

/// All roles of the first component, recursively.
macro_rules! roles {
    ($o:ident [] $g:tt $i:tt $x:tt) => { leaf!($o $g $i $x); };
    ($o:ident [$T:ident $($r:ident)*] [$($g:ty,)*] [$($i:ty,)*] [$($x:ty,)*]) => {
        roles!($o [$($r)*] [$($g,)*] [$($i,)*] [$($x,)*]);
        roles!($o [$($r)*] [$($g,)* &'static $T,] [$($i,)*] [$($x,)*]);
        roles!($o [$($r)*] [$($g,)* &'static mut $T,] [$($i,)*] [$($x,)*]);
        roles!($o [$($r)*] [$($g,)* Option<&'static $T>,] [$($i,)*] [$($x,)*]);
        roles!($o [$($r)*] [$($g,)* Option<&'static mut $T>,] [$($i,)*] [$($x,)*]);
        roles!($o [$($r)*] [$($g,)*] [$($i,)* &'static $T,] [$($x,)*]);
        roles!($o [$($r)*] [$($g,)*] [$($i,)*] [$($x,)* &'static $T,]);
    };
}

macro_rules! leaf4 {
    ($o:ident [$($g:ty,)*] [$($i:ty,)*] [$($x:ty,)*]) => {
        $o.push(desc::<(Entity, $($g,)* &'static D,), ($($i,)*), ($($x,)*)>());
        $o.push(desc::<($($g,)* Entity,), ($($i,)* &'static D,), ($($x,)*)>());
        $o.push(desc::<($($g,)* Entity, Option<&'static mut D>,), ($($i,)*), ($($x,)*)>());
        $o.push(desc::<($($g,)* Entity,), ($($i,)*), (&'static D, $($x,)*)>());
    };
}

/// Roles of four components, the last of which is always used.
macro_rules! roles4 {
    ($o:ident [] $g:tt $i:tt $x:tt) => { leaf4!($o $g $i $x); };
    ($o:ident [$T:ident $($r:ident)*] [$($g:ty,)*] [$($i:ty,)*] [$($x:ty,)*]) => {
        roles4!($o [$($r)*] [$($g,)*] [$($i,)*] [$($x,)*]);
        roles4!($o [$($r)*] [$($g,)* &'static mut $T,] [$($i,)*] [$($x,)*]);
        roles4!($o [$($r)*] [$($g,)*] [$($i,)* &'static $T,] [$($x,)*]);
        roles4!($o [$($r)*] [$($g,)*] [$($i,)*] [$($x,)* &'static $T,]);
    };
}

fn special(o: &mut Vec<Desc>) {
    type E = Entity;
    type R<T> = &'static T;
    type O<T> = Option<&'static T>;
    // A component that is required twice, or required and excluded.
    o.push(desc::<(E, R<A>, R<A>), (), ()>());
    o.push(desc::<(R<A>, R<A>), (), ()>());
    o.push(desc::<(R<A>, R<B>, R<A>), (), ()>());
    o.push(desc::<(R<A>, R<B>), R<A>, ()>());
    o.push(desc::<(E, R<A>, R<B>), (R<A>, R<B>), ()>());
    o.push(desc::<R<A>, R<A>, ()>());
    o.push(desc::<R<A>, R<B>, R<B>>());
    o.push(desc::<R<A>, (), R<A>>());
    o.push(desc::<(R<A>, R<B>), (), R<B>>());
    o.push(desc::<(R<A>, R<B>), (), (R<A>, R<C>)>());
    o.push(desc::<(R<A>, R<B>), (), (R<C>, R<C>)>());
    o.push(desc::<(R<A>, O<A>), (), ()>());
    o.push(desc::<(O<A>, R<A>, R<B>, E), (), ()>());
    o.push(desc::<(E, O<A>), R<A>, ()>());
    o.push(desc::<(E, O<A>), (), R<A>>());
    o.push(desc::<(E, O<A>, R<B>), (), (R<A>, R<C>)>());
    o.push(desc::<(E, E), (), ()>());
    o.push(desc::<(R<A>, E, R<B>, E), (), ()>());
    // Different orders.
    o.push(desc::<(R<C>, R<B>, R<A>, E), (), ()>());
    o.push(desc::<(R<B>, E, R<A>), (), R<C>>());
    o.push(desc::<(R<B>, R<C>), R<A>, ()>());
    o.push(desc::<E, (R<C>, R<A>, R<B>), ()>());
    o.push(desc::<(R<D>, R<C>, R<B>, R<A>), (), ()>());
    // Filters that let everything or nothing through.
    o.push(desc::<R<A>, E, ()>());
    o.push(desc::<R<A>, (), E>());
    o.push(desc::<(R<A>, R<B>), (), E>());
    o.push(desc::<(R<A>, R<B>), O<C>, ()>());
    o.push(desc::<(R<A>, R<B>), (), O<C>>());
    o.push(desc::<(R<A>, R<B>), (), (O<A>,)>());
    o.push(desc::<(R<A>, R<B>), (), (R<C>, O<A>)>());
    o.push(desc::<(R<A>, R<B>), (O<A>, R<C>), ()>());
    o.push(desc::<(R<A>, R<B>), (E, R<C>), ()>());
    o.push(desc::<(E,), (), (E,)>());
    o.push(desc::<E, O<A>, ()>());
    o.push(desc::<E, E, ()>());
    o.push(desc::<E, (), O<A>>());
    o.push(desc::<(), R<A>, ()>());
    o.push(desc::<(), (R<A>, R<B>), R<C>>());
    o.push(desc::<(), (), R<A>>());
    o.push(desc::<(), (), ()>());
    o.push(desc::<R<A>, (), (E, R<B>)>());
}

/// All queries.
pub fn table() -> Vec<Desc> {
    let mut o = Vec::new();
    roles!(o [A B C] [] [] []);
    roles4!(o [A B C] [] [] []);
    special(&mut o);
    o
}

macro_rules! leaf_slice {
    ($o:ident [$($g:ty,)*] [$($i:ty,)*] [$($x:ty,)*]) => {
        $o.push(desc::<($($g,)* Entity,), one!([$($i,)*]), one!([$($x,)*])>());
    };
}

/// Roles that matter for slices.
macro_rules! roles_slice {
    ($o:ident [] $g:tt $i:tt $x:tt) => { leaf_slice!($o $g $i $x); };
    ($o:ident [$T:ident $($r:ident)*] [$($g:ty,)*] [$($i:ty,)*] [$($x:ty,)*]) => {
        roles_slice!($o [$($r)*] [$($g,)*] [$($i,)*] [$($x,)*]);
        roles_slice!($o [$($r)*] [$($g,)* &'static mut $T,] [$($i,)*] [$($x,)*]);
        roles_slice!($o [$($r)*] [$($g,)*] [$($i,)* &'static $T,] [$($x,)*]);
        roles_slice!($o [$($r)*] [$($g,)*] [$($i,)*] [$($x,)* &'static $T,]);
    };
}

/// Every component is absent, mutable, included or excluded; and everything in the full table that
/// does not use the fourth component.
pub fn slice_table() -> Vec<Desc> {
    let mut o = Vec::new();
    roles_slice!(o [A B C D] [] [] []);
    roles!(o [A B C] [] [] []);
    special(&mut o);
    o
}

/// Every component is absent, mutable, included or excluded.
pub fn plain_table() -> Vec<Desc> {
    let mut o = Vec::new();
    roles_slice!(o [A B C D] [] [] []);
    special(&mut o);
    o
}
