//! Many component types.

use sparsey::component::ComponentData;
use sparsey::{Entity, World};

const MAGIC: u32 = 0x00c2_1c21;

struct Kind<const N: usize>(u32);

/// How to register a type, insert it, read it, describe it, and ask whether it is registered.
pub type Register = (
    fn(&mut World) -> bool,
    fn(&mut World, Entity),
    fn(&World, Entity) -> Option<u32>,
    fn() -> ComponentData,
    fn(&World) -> bool,
);

fn kind<const N: usize>() -> Register {
    (
        |w| w.register::<Kind<N>>(),
        |w, e| {
            w.insert(e, (Kind::<N>(N as u32 ^ MAGIC),));
        },
        |w, e| w.borrow::<Kind<N>>().get(e).map(|x| x.0 ^ MAGIC),
        || ComponentData::new::<Kind<N>>(),
        |w| w.is_registered::<Kind<N>>(),
    )
}

macro_rules! kinds {
    ($($h:literal)*) => {
        vec![$(
            kind::<{ $h * 10 }>(), kind::<{ $h * 10 + 1 }>(), kind::<{ $h * 10 + 2 }>(), kind::<{ $h * 10 + 3 }>(), kind::<{ $h * 10 + 4 }>(),
            kind::<{ $h * 10 + 5 }>(), kind::<{ $h * 10 + 6 }>(), kind::<{ $h * 10 + 7 }>(), kind::<{ $h * 10 + 8 }>(), kind::<{ $h * 10 + 9 }>(),
        )*]
    };
}

/// 300 component types.
pub fn all_kinds() -> Vec<Register> {
    kinds!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29)
}
