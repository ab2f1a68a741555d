use engine::runner::Tier;
use mc::exec::Exec;
use mc::op::Op;
use mc::system::*;
use qtable::split::{self, SplitDesc};

struct Obs(Vec<SplitDesc>, UpToRenaming);

impl Observer for Obs {
    fn new_state(&self, x: &mut Exec, _: &[Op]) -> Result<(), String> {
        if self.1.is_new(x) {
            for d in &self.0 {
                split::check(x, d)?;
            }
        }
        Exec::side_errors()
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let mut v = Vec::new();
    let thorough = tier == Tier::Thorough;
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 8, 10, 11] } else { &[0, 3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three entities, three components",
            layout,
            registered: 0b0111,
            create: vec![0, 1, 3, 7],
            insert: vec![1, 2, 4],
            remove: vec![1, 2, 4],
            max_version: if thorough { 2 } else { 1 },
            ..Cfg::default()
        });
    }
    for layout in if thorough { vec![1, 2, 3] } else { vec![3] } {
        v.push(Cfg {
            name: "nine entities",
            layout,
            registered: 0b0111,
            create: vec![0],
            extend: vec![(3, 2), (7, 3), (1, 4)],
            insert: vec![4],
            remove: vec![1],
            max_live: 9,
            max_index: 9,
            depth: if thorough { 5 } else { 4 },
            ..Cfg::default()
        });
    }
    // Larger populations, up to a depth.
    let (layouts, sizes): (&[u8], &[u32]) = if thorough { (&[0, 1, 3, 10], &[11, 37, 130, 400]) } else { (&[0, 3], &[11, 37, 130]) };
    for &layout in layouts {
        for &n in sizes {
            v.push(
                Cfg {
                    layout,
                    registered: 0b0111,
                    create: vec![7],
                    insert: vec![4],
                    remove: vec![1],
                    depth: 1,
                    ..Cfg::default()
                }
                .large(n),
            );
        }
    }
    v
}

fn main() {
    let obs = Obs(split::table(), UpToRenaming::default());
    engine::runner::main(&BfsCheck { id: "C14", cfgs, obs, assumptions: &[] })
}
