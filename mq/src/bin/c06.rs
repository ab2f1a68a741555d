use engine::runner::Tier;
use mc::exec::Exec;
use mc::op::Op;
use mc::system::*;
use qtable::{qcheck, Desc};

struct Obs(Vec<Desc>, UpToRenaming);

impl Observer for Obs {
    fn new_state(&self, x: &mut Exec, _: &[Op]) -> Result<(), String> {
        if self.1.is_new(x) {
            qcheck::all_slices(x, &self.0)?;
        }
        Ok(())
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let mut v = Vec::new();
    let thorough = tier == Tier::Thorough;
    let layouts: &[u8] = if thorough { &[1, 2, 3, 7, 8, 10, 11] } else { &[1, 3, 10, 11] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three entities, three components",
            layout,
            registered: 0b0111,
            create: vec![0, 1, 3, 7],
            insert: vec![1, 2, 4],
            remove: vec![1, 2, 4],
            ..Cfg::default()
        });
    }
    let layouts: &[u8] = if thorough { &[4, 5, 6, 9, 12, 13, 14, 15, 16] } else { &[5, 6, 15, 16] };
    for &layout in layouts {
        v.push(Cfg {
            name: "two entities, four components",
            layout,
            registered: 0b1111,
            create: vec![0, 1, 3, 7, 15],
            extend: vec![(15, 2)],
            insert: vec![1, 2, 4, 8, 15],
            remove: vec![1, 2, 4, 8],
            max_live: 2,
            max_index: 2,
            ..Cfg::default()
        });
    }
    // Many entities, up to a depth.
    for (layout, depth) in [(3, 4), (6, if thorough { 7 } else { 5 })] {
        v.push(Cfg {
            name: "six entities",
            layout,
            registered: 0b1111,
            create: vec![3],
            extend: vec![(3, 2), (7, 2), (15, 2)],
            insert: vec![4, 8],
            remove: vec![1, 4, 8],
            max_live: 6,
            max_index: 6,
            depth: if thorough && layout == 3 { 7 } else { depth },
            ..Cfg::default()
        });
    }
    // Changing layouts.
    v.push(Cfg {
        name: "layout changes",
        layout: 0,
        registered: 0b0111,
        create: vec![1, 3, 7],
        insert: vec![1, 2, 4],
        remove: vec![1, 2, 4],
        layouts: vec![1, 3, 7, 11],
        max_live: 2,
        max_index: 2,
        ..Cfg::default()
    });
    // Larger populations, up to a depth.
    let (layouts, sizes): (&[u8], &[u32]) = if thorough { (&[0, 1, 3, 5, 6, 15], &[11, 37, 130, 400]) } else { (&[3, 6, 15], &[11, 37, 130, 400]) };
    for &layout in layouts {
        for &n in sizes {
            v.push(
                Cfg {
                    layout,
                    registered: 0b1111,
                    create: vec![15],
                    insert: vec![1, 2, 4, 8],
                    remove: vec![1, 4],
                    depth: if thorough { 3 } else { 2 },
                    ..Cfg::default()
                }
                .large(n),
            );
        }
    }
    v
}

fn main() {
    engine::runner::main(&BfsCheck { id: "C06", cfgs, obs: Obs(qtable::slice_table(), UpToRenaming::default()), assumptions: &[] })
}
