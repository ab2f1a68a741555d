use engine::runner::Tier;
use mc::exec::{begin_run, Exec};
use mc::lockstep::{continue_both, drop_world, NEXT};
use mc::op::Op;
use mc::system::*;
use mc::err;
use sparsey::Entity;

/// After clearing or resetting, all continuations up to a length are run in lockstep with a new world.
struct Obs {
    len: usize,
    seen: UpToRenaming,
}

fn history(x: &mut Exec, h: &[Op]) -> Result<(), String> {
    for op in h {
        x.apply(*op)?;
    }
    Ok(())
}

impl Obs {
    /// Runs `prefix`, the wiping operation and `cont`, and `cont` alone on a new world.
    fn lockstep(&self, start: (u8, u8), prefix: &[Op], wipe: Op, cont: &[Op]) -> Result<bool, String> {
        begin_run();
        let mut x = Exec::new(start.0, start.1);
        history(&mut x, prefix)?;
        x.apply(wipe)?;
        let mut old: Vec<Entity> = x.m.issued.to_vec();
        let Some(fresh) = continue_both(&mut x, &format!("{wipe:?}"), cont)? else { return Ok(false) };
        if wipe == Op::Reset {
            let hx: Vec<Entity> = x.m.ents.iter().map(|r| r.0).chain(x.m.pending.iter().copied()).collect();
            let hf: Vec<Entity> = fresh.m.ents.iter().map(|r| r.0).chain(fresh.m.pending.iter().copied()).collect();
            if hx != hf || x.m.issued != fresh.m.issued {
                err!("reset, then {cont:?}: issues {:?}, a new world issues {:?}", x.m.issued, fresh.m.issued);
            }
        } else {
            // Nothing issued before is alive or issued again.
            old.retain(|e| x.w.contains_entity(*e));
            if let Some(e) = old.first() {
                err!("clear, then {cont:?}: {e:?} is alive again");
            }
        }
        drop_world(fresh);
        x.finish()?;
        Exec::check_balance()?;
        Ok(true)
    }

    fn continuations(&self, start: (u8, u8), prefix: &[Op], wipe: Op, cont: &mut Vec<Op>, len: usize) -> Result<(), String> {
        if !self.lockstep(start, prefix, wipe, cont)? {
            return Ok(());
        }
        if cont.len() < len {
            for op in NEXT {
                cont.push(*op);
                self.continuations(start, prefix, wipe, cont, len)?;
                cont.pop();
            }
        }
        Ok(())
    }
}

impl Observer for Obs {
    fn after(&self, cfg: &Cfg, h: &[Op]) -> Result<(), String> {
        let start = (cfg.layout, cfg.registered);
        begin_run();
        let mut x = Exec::new(start.0, start.1);
        history(&mut x, h)?;
        let new = self.seen.is_new(&x);
        drop(x);
        // States that differ only in the past of their entities get shorter continuations.
        let len = if new { self.len } else { 1 };
        for wipe in [Op::Clear, Op::Reset] {
            self.continuations(start, h, wipe, &mut Vec::new(), len)?;
        }
        Ok(())
    }
}

fn cfgs(tier: Tier) -> Vec<Cfg> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let layouts: &[u8] = if thorough { &[0, 1, 2, 3, 7, 8, 10, 11] } else { &[0, 3] };
    for &layout in layouts {
        v.push(Cfg {
            name: "one group family",
            layout,
            registered: 0b0111,
            create: vec![0, 3, 7],
            insert: vec![1, 4],
            remove: vec![2, 4],
            atomic: true,
            clear: true,
            reset: true,
            max_live: if thorough { 3 } else { 2 },
            max_index: if thorough { 3 } else { 2 },
            ..Cfg::default()
        });
    }
    v.push(Cfg {
        name: "two group families",
        layout: 4,
        registered: 0b1111,
        create: vec![15],
        extend: vec![(7, 2)],
        insert: vec![8],
        remove: vec![2, 8],
        max_live: 3,
        max_index: 3,
        depth: if thorough { 64 } else { 6 },
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "many entities",
        layout: 3,
        registered: 0b0111,
        create: vec![7],
        extend: vec![(3, 3), (7, 9), (0, 17)],
        remove: vec![1],
        atomic: true,
        clear: true,
        max_live: 20,
        max_index: 20,
        depth: if thorough { 4 } else { 3 },
        ..Cfg::default()
    });
    // Larger populations, up to a depth.
    let (layouts, sizes): (&[u8], &[u32]) = if thorough { (&[0, 1, 3, 5, 6, 15], &[11, 37, 130, 400]) } else { (&[0, 3], &[11, 37]) };
    for &layout in layouts {
        for &n in sizes {
            v.push(
                Cfg {
                    layout,
                    registered: 0b1111,
                    create: vec![0],
                    remove: vec![1],
                    atomic: true,
                    depth: 1,
                    ..Cfg::default()
                }
                .large(n),
            );
        }
    }
    v.push(Cfg {
        name: "layout changes and registration",
        layout: 1,
        registered: 0b0001,
        create: vec![1, 7],
        insert: vec![2],
        remove: vec![1],
        layouts: vec![0, 3, 4],
        register: vec![2, 3],
        clear: true,
        reset: true,
        max_live: 2,
        max_index: 2,
        ..Cfg::default()
    });
    v
}

fn main() {
    engine::runner::main(&BfsCheck {
        id: "C19",
        cfgs,
        obs: Obs { len: 3, seen: UpToRenaming::default() },
        assumptions: &["continuations after the wiping operation have at most three operations"],
    })
}
