//! Tuples of every arity, type-erased.

use engine::ledger;
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::{Entity, World};

/// Component type number `N`.
pub struct T<const N: usize>(u32);

impl<const N: usize> T<N> {
    pub fn make() -> (Self, u32) {
        let t = ledger::issue();
        (Self(t), t)
    }
    pub fn val(&self) -> u32 {
        if !ledger::is_live(self.0) {
            ledger::error(format!("component {N} shows a value that does not exist (#{:#x})", self.0));
        }
        self.0
    }
}

impl<const N: usize> Drop for T<N> {
    fn drop(&mut self) {
        ledger::on_drop(self.0);
    }
}

macro_rules! types {
    ($($T:ident $n:literal)*) => {
        $(pub type $T = T<$n>;)*

        /// Runs `$body` for each of the sixteen types.
        #[macro_export]
        macro_rules! each {
            ($X:ident $i:ident => $body:expr) => {
                $({
                    type $X = $crate::T<$n>;
                    let $i: usize = $n;
                    $body
                })*
            };
        }
    };
}
types!(T0 0 T1 1 T2 2 T3 3 T4 4 T5 5 T6 6 T7 7 T8 8 T9 9 T10 10 T11 11 T12 12 T13 13 T14 14 T15 15);

pub type Vals = Vec<u32>;
pub type Opts = Vec<Option<u32>>;

/// Uses of a tuple. Values are listed by position.
pub struct Entry {
    pub arity: usize,
    pub order: &'static str,
    /// Component types by position.
    pub comps: Vec<usize>,
    pub create: fn(&mut World) -> (Entity, Vals),
    pub insert: fn(&mut World, Entity) -> (bool, Vals),
    pub remove: fn(&mut World, Entity) -> Opts,
    pub delete: fn(&mut World, Entity),
    /// `hint`: the iterator knows its length.
    pub extend: fn(&mut World, usize, bool) -> (Vec<Entity>, Vec<Vals>),
    pub refs: fn(&World) -> (Vec<Vals>, bool),
    /// Values before, and values written.
    pub write: fn(&World) -> Vec<(Vals, Vals)>,
    pub opts: fn(&World) -> Vec<Opts>,
    pub include: fn(&World) -> Vec<Entity>,
    pub exclude: fn(&World) -> Vec<Entity>,
    /// contains, get, and map.
    pub one: fn(&World, Entity) -> (bool, Option<Vals>, Option<Vals>),
    pub one_write: fn(&World, Entity) -> Option<(Vals, Vals)>,
    pub slice: fn(&World) -> Option<Vec<Vals>>,
    pub slice_write: fn(&World) -> Option<Vec<(Vals, Vals)>>,
    pub group: Option<fn(&mut GroupLayout)>,
}

pub struct Position {
    pub arity: usize,
    pub order: &'static str,
    pub comps: Vec<usize>,
    pub at: usize,
    /// This position is optional.
    pub opt: fn(&World) -> Vec<Opts>,
    /// This position is mutable: values before, and value written.
    pub write: fn(&World) -> Vec<(Vals, u32)>,
    /// This position is the entity; the values of the others.
    pub entity: fn(&World) -> Vec<(Entity, Vals)>,
    /// The others are included, this one is excluded.
    pub only_missing: fn(&World) -> Vec<Entity>,
    /// This one is included, the others are excluded.
    pub only_present: fn(&World) -> Vec<Entity>,
    /// This one is included, the others are read.
    pub include_one: fn(&World) -> Vec<Vals>,
    /// The same for one entity.
    pub one: fn(&World, Entity) -> Option<Vals>,
}

pub fn data(i: usize) -> ComponentData {
    let mut d = Vec::new();
    each!(X _i => d.push(ComponentData::new::<X>()));
    d[i]
}

fn put<const N: usize>(t: &mut T<N>) -> u32 {
    let (new, v) = T::make();
    *t = new;
    v
}

macro_rules! group_of {
    ($T:ident) => { None };
    ($($T:ident)*) => { Some(|l: &mut GroupLayout| l.add_group::<($($T,)*)>()) };
}

macro_rules! entries {
    ($($k:literal $order:literal $(($T:ident $v:ident $i:tt))*;)*) => {
        pub fn entries() -> Vec<Entry> {
            vec![$({
                fn create(w: &mut World) -> (Entity, Vals) {
                    $(let $v = $T::make();)*
                    let vals = vec![$($v.1),*];
                    (w.create(($($v.0,)*)), vals)
                }
                fn insert(w: &mut World, e: Entity) -> (bool, Vals) {
                    $(let $v = $T::make();)*
                    let vals = vec![$($v.1),*];
                    (w.insert(e, ($($v.0,)*)), vals)
                }
                fn remove(w: &mut World, e: Entity) -> Opts {
                    let r = w.remove::<($($T,)*)>(e);
                    vec![$(r.$i.as_ref().map(|x| x.val())),*]
                }
                fn delete(w: &mut World, e: Entity) {
                    w.delete::<($($T,)*)>(e);
                }
                fn extend(w: &mut World, n: usize, hint: bool) -> (Vec<Entity>, Vec<Vals>) {
                    let mut all = Vec::new();
                    let mut make = || {
                        $(let $v = $T::make();)*
                        all.push(vec![$($v.1),*]);
                        ($($v.0,)*)
                    };
                    let mut left = n;
                    let es = if hint {
                        w.extend((0..n).map(|_| make())).to_vec()
                    } else {
                        w.extend(std::iter::from_fn(|| {
                            left = left.checked_sub(1)?;
                            Some(make())
                        })).to_vec()
                    };
                    (es, all)
                }
                fn refs(w: &World) -> (Vec<Vals>, bool) {
                    let mut q = w.query_all::<($(&$T,)*)>();
                    let v = q.iter().map(|x| vec![$(x.$i.val()),*]).collect();
                    let dense = q.iter().is_dense();
                    (v, dense)
                }
                fn write(w: &World) -> Vec<(Vals, Vals)> {
                    let mut out = Vec::new();
                    w.for_each::<($(&mut $T,)*)>(|x| {
                        let old = vec![$(x.$i.val()),*];
                        out.push((old, vec![$(put(x.$i)),*]));
                    });
                    out
                }
                fn opts(w: &World) -> Vec<Opts> {
                    let mut q = w.query_all::<($(Option<&$T>,)*)>();
                    q.iter().map(|x| vec![$(x.$i.map(T::val)),*]).collect()
                }
                fn include(w: &World) -> Vec<Entity> {
                    w.query_all::<Entity>().include::<($(&$T,)*)>().iter().collect()
                }
                fn exclude(w: &World) -> Vec<Entity> {
                    w.query_all::<Entity>().exclude::<($(&$T,)*)>().iter().collect()
                }
                fn one(w: &World, e: Entity) -> (bool, Option<Vals>, Option<Vals>) {
                    let mut q = w.query_one::<($(&$T,)*)>();
                    let c = q.contains(e);
                    let g = q.get(e).map(|x| vec![$(x.$i.val()),*]);
                    let m = q.map(e, |x| vec![$(x.$i.val()),*]);
                    (c, g, m)
                }
                fn one_write(w: &World, e: Entity) -> Option<(Vals, Vals)> {
                    w.query_one::<($(&mut $T,)*)>().get(e).map(|x| {
                        let old = vec![$(x.$i.val()),*];
                        (old, vec![$(put(x.$i)),*])
                    })
                }
                fn slice(w: &World) -> Option<Vec<Vals>> {
                    w.query_all::<($(&$T,)*)>().slice().map(|s| vec![$(s.$i.iter().map(T::val).collect()),*])
                }
                fn slice_write(w: &World) -> Option<Vec<(Vals, Vals)>> {
                    w.query_all::<($(&mut $T,)*)>().slice().map(|s| {
                        let n = s.0.len();
                        (0..n).map(|k| {
                            let old = vec![$(s.$i[k].val()),*];
                            (old, vec![$(put(&mut s.$i[k])),*])
                        }).collect()
                    })
                }
                Entry {
                    arity: $k,
                    order: $order,
                    comps: vec![$(number::<$T>()),*],
                    create, insert, remove, delete, extend, refs, write, opts, include, exclude, one, one_write, slice,
                    slice_write,
                    group: group_of!($($T)*),
                }
            }),*]
        }
    };
}

pub trait Number {
    const N: usize;
}
impl<const N: usize> Number for T<N> {
    const N: usize = N;
}
fn number<X: Number>() -> usize {
    X::N
}

macro_rules! positions {
    ($($k:literal $order:literal [$(($L:ident $lv:ident $l:tt))*] ($C:ident $cv:ident $c:tt) [$(($R:ident $rv:ident $r:tt))*];)*) => {
        pub fn positions() -> Vec<Position> {
            vec![$({
                fn opt(w: &World) -> Vec<Opts> {
                    w.query_all::<($(&$L,)* Option<&$C>, $(&$R,)*)>().iter()
                        .map(|x| vec![$(Some(x.$l.val()),)* x.$c.map(T::val), $(Some(x.$r.val()),)*]).collect()
                }
                fn write(w: &World) -> Vec<(Vals, u32)> {
                    w.query_all::<($(&$L,)* &mut $C, $(&$R,)*)>().iter()
                        .map(|x| (vec![$(x.$l.val(),)* x.$c.val(), $(x.$r.val(),)*], put(x.$c))).collect()
                }
                fn entity(w: &World) -> Vec<(Entity, Vals)> {
                    w.query_all::<($(&$L,)* Entity, $(&$R,)*)>().iter()
                        .map(|x| (x.$c, vec![$(x.$l.val(),)* $(x.$r.val(),)*])).collect()
                }
                fn only_missing(w: &World) -> Vec<Entity> {
                    w.query_all::<Entity>().include::<($(&$L,)* $(&$R,)*)>().exclude::<&$C>().iter().collect()
                }
                fn only_present(w: &World) -> Vec<Entity> {
                    w.query_all::<Entity>().include::<&$C>().exclude::<($(&$L,)* $(&$R,)*)>().iter().collect()
                }
                fn include_one(w: &World) -> Vec<Vals> {
                    w.query_all::<($(&$L,)* $(&$R,)*)>().include::<&$C>().iter()
                        .map(|x| { let ($($lv,)* $($rv,)*) = x; vec![$($lv.val(),)* $($rv.val(),)*] }).collect()
                }
                fn one(w: &World, e: Entity) -> Option<Vals> {
                    w.query_one::<($(&$L,)* $(&$R,)*)>().exclude::<(&$C,)>()
                        .map(e, |x| { let ($($lv,)* $($rv,)*) = x; vec![$($lv.val(),)* $($rv.val(),)*] })
                }
                Position {
                    arity: $k,
                    order: $order,
                    comps: vec![$(number::<$L>(),)* number::<$C>(), $(number::<$R>(),)*],
                    at: $c,
                    opt, write, entity, only_missing, only_present, include_one, one,
                }
            }),*]
        }
    };
}

include!("table.rs");
