use engine::runner::Tier;
use mc::exec::Exec;
use mc::observe;
use mc::op::Op;
use mc::system::*;

struct Obs;

impl Observer for Obs {
    fn new_state(&self, x: &mut Exec, _: &[Op]) -> Result<(), String> {
        observe::full(x)?;
        // Whatever is created next is new, and alive exactly when it should be.
        for round in 0..3 {
            let n = x.m.recyclable + 2;
            for i in 0..n {
                if i % 3 == round % 3 {
                    x.apply(Op::Create(0))?;
                } else {
                    x.apply(Op::Atomic)?;
                }
            }
            observe::entities(x)?;
            observe::liveness(x, &x.m.tracked())?;
            x.apply(Op::Maintain)?;
            observe::basic(x)?;
            while x.m.ents.len() > 1 {
                x.apply(Op::Destroy(0))?;
            }
            observe::basic(x)?;
        }
        Ok(())
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let thorough = tier == Tier::Thorough;
    let mut v = vec![
        Cfg {
            name: "all lifecycle operations",
            registered: 0,
            create: vec![0],
            extend: vec![(0, 2)],
            atomic: true,
            clear: true,
            reset: true,
            max_live: 4,
            max_index: 4,
            max_version: if thorough { 4 } else { 3 },
            ..Cfg::default()
        },
        Cfg {
            name: "creation and destruction",
            registered: 0,
            create: vec![0],
            extend: vec![(0, 3)],
            atomic: true,
            max_live: 4,
            max_index: if thorough { 5 } else { 4 },
            max_version: 4,
            states: 20_000_000,
            ..Cfg::default()
        },
        Cfg {
            name: "more entities",
            registered: 0,
            create: vec![0],
            extend: vec![(0, 2), (0, 5)],
            atomic: true,
            clear: true,
            max_live: 7,
            max_index: 7,
            max_version: 3,
            depth: if thorough { 10 } else { 8 },
            ..Cfg::default()
        },
    ];
    for layout in if thorough { vec![0, 1, 3] } else { vec![3] } {
        v.push(Cfg {
            name: "with components",
            layout,
            registered: 0b0111,
            create: vec![0, 7],
            extend: vec![(3, 2)],
            insert: vec![4],
            remove: vec![3],
            atomic: true,
            clear: true,
            reset: true,
            ..Cfg::default()
        });
    }
    // Larger populations, up to a depth.
    for n in [11, 37, 130, 400] {
        v.push(
            Cfg {
                registered: 0,
                create: vec![0],
                extend: vec![(0, 2)],
                atomic: true,
                clear: true,
                reset: true,
                depth: if thorough { 6 } else { 5 },
                ..Cfg::default()
            }
            .large(n),
        );
    }
    // Many entities that wait to be created, or to be used again.
    for (name, again) in [("many pending entities", 0), ("many recycled entities", 300), ("many of both", 150)] {
        let mut setup = vec![Op::Create(0); again];
        setup.extend(vec![Op::Destroy(0); again]);
        setup.extend(vec![Op::Atomic; 300]);
        v.push(Cfg {
            name,
            registered: 0,
            setup,
            create: vec![0],
            extend: vec![(0, 200)],
            atomic: true,
            clear: true,
            reset: true,
            slots: vec![0, 1],
            max_live: 700,
            max_index: 700,
            max_version: 3,
            depth: if thorough { 5 } else { 4 },
            ..Cfg::default()
        });
    }
    v
}

fn main() {
    engine::runner::main(&BfsCheck { id: "C02", cfgs, obs: Obs, assumptions: &[] })
}
