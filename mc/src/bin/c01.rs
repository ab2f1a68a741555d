use engine::runner::Tier;
use mc::system::*;

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let mut v = Vec::new();
    let thorough = tier == Tier::Thorough;
    // All reachable states of small worlds with three components.
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 8, 10, 11] } else { &[0, 1, 3, 10] };
    for &layout in layouts {
        v.push(Cfg {
            name: "three components",
            layout,
            registered: 0b0111,
            create: if thorough { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![0, 1, 2, 4, 3, 7] },
            extend: vec![(0b011, 2), (0b111, 3), (0b100, 2)],
            insert: vec![1, 2, 4, 3, 5, 6, 7],
            remove: vec![1, 2, 4, 7],
            delete: vec![1, 2, 4, 6],
            ..Cfg::default()
        });
    }
    // Four components, several families of groups.
    let layouts: &[u8] = if thorough { &[0, 4, 5, 6, 9, 13, 14, 15, 16] } else { &[4, 6, 15] };
    for &layout in layouts {
        v.push(Cfg {
            name: "four components",
            layout,
            registered: 0b1111,
            create: vec![0, 3, 15],
            insert: singles(15).into_iter().chain([15]).collect(),
            remove: singles(15),
            delete: vec![3, 15],
            max_live: 2,
            max_index: 2,
            ..Cfg::default()
        });
    }
    // Deferred creation, clearing, bulk operations.
    v.push(Cfg {
        name: "lifecycle",
        layout: 1,
        registered: 0b0011,
        create: vec![0, 3],
        extend: vec![(0, 2), (3, 2)],
        insert: vec![1, 3],
        remove: vec![3],
        atomic: true,
        clear: true,
        reset: true,
        ..Cfg::default()
    });
    // More entities, up to a depth.
    let deep: &[(u8, usize)] = if thorough { &[(3, 7), (6, 7), (1, 7)] } else { &[(3, 5), (6, 5)] };
    for &(layout, depth) in deep {
        v.push(Cfg {
            name: "five entities",
            layout,
            registered: 0b1111,
            create: vec![0, 1, 3, 7, 15],
            extend: vec![(3, 4), (15, 5), (7, 2)],
            insert: singles(15),
            remove: vec![1, 2, 4, 8, 15],
            max_live: 5,
            max_index: 5,
            depth,
            ..Cfg::default()
        });
    }
    // Larger populations, up to a depth.
    let (layouts, sizes): (&[u8], &[u32]) = if thorough { (&[0, 1, 3, 5, 6, 15], &[11, 37, 130, 400]) } else { (&[0, 3, 6], &[11, 37, 130, 400]) };
    for &layout in layouts {
        for &n in sizes {
            v.push(
                Cfg {
                    layout,
                    registered: 0b1111,
                    create: vec![0, 15],
                    extend: vec![(3, 1)],
                    insert: vec![1, 2, 4, 8, 15],
                    remove: vec![1, 4, 15],
                    delete: vec![3, 8],
                    depth: 3,
                    ..Cfg::default()
                }
                .large(n),
            );
        }
        // More entities than a 16-bit index counts.
        if thorough || layout == 6 {
            v.push(
                Cfg {
                    layout,
                    registered: 0b1111,
                    create: vec![15],
                    insert: vec![1, 2, 4, 8],
                    remove: vec![1, 4, 15],
                    delete: vec![8],
                    depth: 1,
                    ..Cfg::default()
                }
                .large(75_000),
            );
        }
    }
    v
}

fn main() {
    engine::runner::main(&BfsCheck { id: "C01", cfgs, obs: Basic, assumptions: &[] })
}
