use engine::runner::Tier;
use mc::comps::*;
use mc::exec::{entity, Exec};
use mc::op::Op;
use mc::system::*;
use mc::{err, for_registered, observe};
use sparsey::Entity;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Obs;

fn view<T: Comp>(x: &mut Exec, handles: &[Entity]) -> Result<(), String> {
    let expect = |x: &Exec, e: Entity| x.m.get(e).and_then(|r| r[T::I]);
    // Shared view.
    {
        let v = x.w.borrow::<T>();
        for &e in handles {
            let got = catch_unwind(AssertUnwindSafe(|| v[e].val())).ok();
            if got != expect(x, e) {
                err!("indexing the view of {} by {e:?} gives {got:?}, expected {:?}", T::NAME, expect(x, e));
            }
        }
        // Two shared views show the same.
        let o = x.w.borrow::<T>();
        if v.entities() != o.entities() || v.as_slice().as_ptr() != o.as_slice().as_ptr() {
            err!("two views of {} differ", T::NAME);
        }
    }
    // Exclusive view: the listing agrees, position by position.
    {
        let mut v = x.w.borrow_mut::<T>();
        let es: Vec<Entity> = v.entities().to_vec();
        let n = x.m.ents.iter().filter(|r| r.1[T::I].is_some()).count();
        if es.len() != n || v.len() != n || v.is_empty() != (n == 0) || v.as_slice().len() != n || v.as_mut_slice().len() != n {
            err!("exclusive view of {}: wrong length", T::NAME);
        }
        for (i, e) in es.iter().enumerate() {
            let want = expect(x, *e);
            let a = Some(v.as_slice()[i].val());
            let b = Some(v.as_mut_slice()[i].val());
            if a != want || b != want || want.is_none() {
                err!("exclusive view of {}: position {i} is {e:?} with {a:?}/{b:?}, expected {want:?}", T::NAME);
            }
        }
        for &e in handles {
            let want = expect(x, e);
            let got = [
                v.get(e).map(Comp::val),
                v.get_mut(e).map(|c| c.val()),
                catch_unwind(AssertUnwindSafe(|| v[e].val())).ok(),
                catch_unwind(AssertUnwindSafe(|| (&mut v[e]).val())).ok(),
            ];
            if got.iter().any(|g| *g != want) || v.contains(e) != want.is_some() {
                err!("exclusive view of {}: {e:?} gives {got:?}, expected {want:?}", T::NAME);
            }
        }
    }
    // Writes change exactly the addressed value.
    let all: Vec<Entity> = x.m.ents.iter().map(|r| r.0).collect();
    for &e in &all {
        for how in 0..3 {
            let Some(_) = expect(x, e) else { continue };
            let (new, val) = T::make();
            {
                let mut v = x.w.borrow_mut::<T>();
                match how {
                    0 => *v.get_mut(e).unwrap() = new,
                    1 => v[e] = new,
                    _ => {
                        let i = v.entities().iter().position(|o| *o == e).unwrap();
                        v.as_mut_slice()[i] = new;
                    }
                }
            }
            x.m.row_mut(e).unwrap()[T::I] = Some(val);
            observe::views(x, handles).map_err(|m| format!("after writing {} of {e:?} (way {how}): {m}", T::NAME))?;
        }
    }
    // A failed access leaves the view usable, and the view is released afterwards.
    if let Some(e) = handles.iter().find(|e| expect(x, **e).is_none()) {
        let mut v = x.w.borrow_mut::<T>();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (new, _) = T::make();
            v[*e] = new;
        }));
        if r.is_ok() {
            err!("writing {} of {e:?}, which does not have it, did not panic", T::NAME);
        }
    }
    observe::views(x, handles)
}

impl Observer for Obs {
    fn new_state(&self, x: &mut Exec, _: &[Op]) -> Result<(), String> {
        let mut handles = x.m.tracked();
        handles.push(entity(1 << 20, 1));
        for_registered!(x.m.registered, T => view::<T>(x, &handles)?);
        observe::full(x)
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let mut v = Vec::new();
    let thorough = tier == Tier::Thorough;
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 8, 10, 11] } else { &[0, 3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three entities, three components",
            layout,
            registered: 0b0111,
            create: vec![0, 1, 3, 7],
            insert: vec![1, 2, 4],
            remove: vec![1, 2, 4],
            ..Cfg::default()
        });
    }
    let layouts: &[u8] = if thorough { &[0, 4, 5, 6, 12, 13, 14, 15, 16] } else { &[6, 15] };
    for &layout in layouts {
        v.push(Cfg {
            name: "two entities, four components",
            layout,
            registered: 0b1111,
            create: vec![0, 3, 15],
            extend: vec![(15, 2)],
            insert: vec![1, 2, 4, 8],
            remove: vec![1, 2, 4, 8],
            clear: true,
            max_live: 2,
            max_index: 2,
            ..Cfg::default()
        });
    }
    v.push(Cfg {
        name: "layout changes",
        layout: 0,
        registered: 0b0111,
        create: vec![1, 3, 7],
        insert: vec![1, 2, 4],
        remove: vec![1, 2, 4],
        layouts: vec![0, 1, 3],
        max_live: 2,
        max_index: 2,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "seven entities",
        layout: 3,
        registered: 0b0111,
        create: vec![7],
        extend: vec![(3, 3), (7, 2), (1, 5)],
        insert: vec![4],
        remove: vec![1],
        max_live: 7,
        max_index: 7,
        depth: if thorough { 6 } else { 4 },
        ..Cfg::default()
    });
    // Larger populations, up to a depth.
    let (layouts, sizes): (&[u8], &[u32]) = if thorough { (&[0, 1, 3, 5, 6, 15], &[11, 37, 130, 400]) } else { (&[0, 3, 6], &[11, 37, 130, 400]) };
    for &layout in layouts {
        for &n in sizes {
            v.push(
                Cfg {
                    layout,
                    registered: 0b1111,
                    create: vec![0, 15],
                    insert: vec![4, 8],
                    remove: vec![1],
                    depth: if thorough { 2 } else { 1 },
                    ..Cfg::default()
                }
                .large(n),
            );
        }
    }
    v
}

fn main() {
    engine::runner::main(&BfsCheck { id: "C15", cfgs, obs: Obs, assumptions: &[] })
}
