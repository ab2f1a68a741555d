use engine::runner::Tier;
use mc::exec::Exec;
use mc::op::Op;
use mc::system::*;
use mc::{err, observe};
use qtable::{qcheck, Desc};

/// Compares with a world that never had a layout.
struct Obs(Vec<Desc>, UpToRenaming);

impl Observer for Obs {
    fn transition(&self, x: &mut Exec, history: &[Op]) -> Result<(), String> {
        observe::basic(x)?;
        observe::registration(x)?;
        let handles: Vec<_> = x.m.ents.iter().map(|r| r.0).collect();
        let pending = x.m.pending.clone();
        // The handles must not depend on the layout either.
        let mut plain = Exec::new(0, x.m.registered);
        for op in history {
            if !matches!(op, Op::Layout(_)) {
                plain.apply(*op).map_err(|m| format!("{op:?} without layouts: {m}"))?;
            }
        }
        let plain_handles: Vec<_> = plain.m.ents.iter().map(|r| r.0).collect();
        if plain_handles != handles || plain.m.pending != pending {
            err!("created {handles:?} {pending:?}, but without layouts {plain_handles:?} {:?}", plain.m.pending);
        }
        drop(plain);
        Exec::side_errors()
    }

    fn new_state(&self, x: &mut Exec, _: &[Op]) -> Result<(), String> {
        if self.1.is_new(x) {
            let handles = x.m.tracked();
            for d in &self.0 {
                if d.used() & !x.m.registered == 0 {
                    qcheck::check(x, d, &handles)?;
                }
            }
        }
        observe::full(x)
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let mut v = Vec::new();
    let thorough = tier == Tier::Thorough;
    v.push(Cfg {
        name: "layout changes, three components",
        layout: 0,
        registered: 0b0111,
        create: vec![0, 1, 3, 7],
        insert: vec![1, 2, 4],
        remove: vec![1, 2, 4],
        layouts: vec![0, 1, 2, 3, 7, 10],
        max_live: 2,
        max_index: 2,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "layout changes, four components",
        layout: 6,
        registered: 0b1111,
        create: vec![0, 3, 15],
        insert: vec![1, 2, 4, 8],
        remove: vec![1, 2, 4, 8],
        delete: vec![15],
        layouts: if thorough { (0..17).collect() } else { vec![0, 4, 6, 14, 15] },
        max_live: 2,
        max_index: 2,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "layout changes and lifecycle",
        layout: 1,
        registered: 0b0111,
        create: vec![0, 3],
        insert: vec![3, 4],
        atomic: true,
        clear: true,
        reset: true,
        layouts: vec![0, 1, 3],
        max_live: 2,
        max_index: 2,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "layout changes, more entities",
        layout: 0,
        registered: 0b1111,
        create: vec![1, 3],
        extend: vec![(3, 3), (7, 2), (15, 2)],
        insert: vec![4, 8],
        remove: vec![1, 4],
        layouts: vec![0, 1, 3, 6, 10, 15],
        max_live: 5,
        max_index: 5,
        depth: if thorough { 6 } else { 5 },
        ..Cfg::default()
    });
    if thorough {
        for layout in 0..17 {
            v.push(Cfg {
                name: "three entities",
                layout,
                registered: 0b1111,
                create: vec![0, 3, 7, 15],
                insert: vec![1, 2, 4, 8],
                remove: vec![1, 2, 4, 8],
                depth: 7,
                ..Cfg::default()
            });
        }
    }
    // Larger populations, up to a depth.
    let (layouts, sizes): (&[u8], &[u32]) = (if thorough { &[0, 1, 3, 5, 6, 15] } else { &[0, 6] }, &[11, 37, 130, 400]);
    for &layout in layouts {
        for &n in sizes {
            v.push(
                Cfg {
                    layout,
                    registered: 0b1111,
                    create: vec![15],
                    insert: vec![4],
                    remove: vec![1],
                    layouts: vec![0, 3, 6, 15],
                    depth: 2,
                    ..Cfg::default()
                }
                .large(n),
            );
        }
    }
    v
}

fn main() {
    let obs = Obs(qtable::plain_table(), UpToRenaming::default());
    engine::runner::main(&BfsCheck { id: "C05", cfgs, obs, assumptions: &[] })
}
