use engine::runner::Tier;
use mc::exec::Exec;
use mc::observe;
use mc::op::Op;
use mc::system::*;
use qtable::{qcheck, Desc};

struct Obs(Vec<Desc>, UpToRenaming);

impl Observer for Obs {
    fn new_state(&self, x: &mut Exec, _: &[Op]) -> Result<(), String> {
        // Two entities: every state. More: up to a renaming of indexes.
        let renamed = self.1.is_new(x);
        if x.m.ents.len() < 3 || renamed {
            qcheck::all(x, &self.0)?;
        }
        observe::full(x)
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let mut v = Vec::new();
    let thorough = tier == Tier::Thorough;
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 13, 14, 15, 16] } else { &[1, 6] };
    for &layout in layouts {
        v.push(Cfg {
            name: "two entities, four components",
            layout,
            registered: 0b1111,
            create: vec![0, 1, 3, 7, 15],
            insert: vec![1, 2, 4, 8],
            remove: vec![1, 2, 4, 8],
            max_live: 2,
            max_index: 2,
            ..Cfg::default()
        });
    }
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 8, 10, 11] } else { &[3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three entities, three components",
            layout,
            registered: 0b0111,
            create: vec![0, 1, 3, 7],
            insert: vec![1, 2, 4],
            remove: vec![1, 2, 4],
            ..Cfg::default()
        });
    }
    // Entities that are not alive yet.
    v.push(Cfg {
        name: "deferred creation",
        layout: 3,
        registered: 0b0111,
        create: vec![0, 7],
        insert: vec![3, 4],
        atomic: true,
        clear: true,
        max_live: 2,
        max_index: 2,
        ..Cfg::default()
    });
    // Larger populations, up to a depth.
    let (layouts, sizes): (&[u8], &[u32]) = if thorough { (&[0, 1, 3, 5, 6, 15], &[11, 37, 130, 400]) } else { (&[0, 3, 6], &[11, 37, 130, 400]) };
    for &layout in layouts {
        for &n in sizes {
            v.push(
                Cfg {
                    layout,
                    registered: 0b1111,
                    create: vec![0, 15],
                    insert: vec![4, 8],
                    remove: vec![1],
                    depth: if thorough { 2 } else { 1 },
                    ..Cfg::default()
                }
                .large(n),
            );
        }
    }
    v
}

fn main() {
    let obs = Obs(qtable::table(), UpToRenaming::default());
    engine::runner::main(&BfsCheck {
        id: "C04",
        cfgs,
        obs,
        assumptions: &["queries are those of the table: all roles of three components, and many of a fourth"],
    })
}
