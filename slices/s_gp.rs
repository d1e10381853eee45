//! C26: the register file and the reference allocator of monoruby/src/codegen/jitgen/gp_alloc.rs.
#![allow(dead_code, unused_imports)]
use vharness::drv::{self, Gen, Plan};
pub mod codegen {
    //@item monoruby/src/codegen.rs enum GP
    pub mod jitgen {
        use super::GP;
        //@item monoruby/src/executor.rs struct SlotId
        //@optsub repr ( transparent ) ==> derive(Debug)
        //@item monoruby/src/bytecodegen.rs enum BinOpK
        //@file monoruby/src/codegen/jitgen/gp_alloc.rs nouse

        // ---- contract ---------------------------------------------------------------------------------------------
        use std::collections::HashMap;
        use vharness::drv::Gen;
        /// a value: which definition of which slot
        type V = u32;
        /// the machine: what is in the registers and in the stack homes, and what each live slot should hold
        struct M {
            reg: HashMap<usize, V>,
            home: [V; 12],
            want: [Option<V>; 12],
            next: V,
        }
        fn ix(r: GP) -> usize {
            r as usize
        }
        fn all() -> Vec<GP> {
            GP_ALLOC_SET.to_vec()
        }
        fn spill(m: &mut M, (r, s): (GP, SlotId)) {
            m.home[s.0 as usize] = m.reg[&ix(r)];
        }
        /// every live slot is found where the register file says it is
        fn agree(f: &GpRegFile, m: &M) -> Result<(), String> {
            let mut seen = vec![];
            for s in 0..12u16 {
                let r = f.reg_of(SlotId(s));
                if let Some(r) = r {
                    if !GP_ALLOC_SET.contains(&r) {
                        return Err(format!("{r:?} is not allocatable"));
                    }
                    if seen.contains(&ix(r)) {
                        return Err(format!("{r:?} caches two slots"));
                    }
                    seen.push(ix(r));
                    if f.is_free(r) {
                        return Err(format!("{r:?} caches slot {s} and is free"));
                    }
                }
                let Some(w) = m.want[s as usize] else { continue };
                if let Some(r) = r {
                    if m.reg.get(&ix(r)) != Some(&w) {
                        return Err(format!("slot {s} is said to be in {r:?}, which does not hold its value"));
                    }
                }
                match (f.dirty_reg_of(SlotId(s)), r) {
                    (Some(d), Some(r)) if d == r => {}
                    (Some(d), _) => return Err(format!("slot {s} dirty in {d:?} but not cached there")),
                    (None, _) => {
                        if m.home[s as usize] != w {
                            return Err(format!("the value of slot {s} is lost: its home is stale and no register has the newer one"));
                        }
                    }
                }
            }
            for r in all() {
                if !f.is_free(r) && !seen.contains(&ix(r)) {
                    return Err(format!("{r:?} is neither free nor caching a slot"));
                }
            }
            if f.is_empty() != seen.is_empty() {
                return Err("is_empty".into());
            }
            let d: Vec<(GP, SlotId)> = f.dirty_residents();
            for (r, s) in &d {
                if f.dirty_reg_of(*s) != Some(*r) {
                    return Err(format!("dirty_residents lists {r:?} for slot {}", s.0));
                }
            }
            for s in 0..12u16 {
                if f.dirty_reg_of(SlotId(s)).is_some() && d.iter().filter(|x| x.1 == SlotId(s)).count() != 1 {
                    return Err(format!("dirty_residents misses slot {s}"));
                }
            }
            Ok(())
        }
        /// the calls of the code generator, in any order it may make them
        pub fn history(g: &mut Gen) -> Result<(), String> {
            let mut f = GpRegFile::new();
            let mut m = M { reg: HashMap::new(), home: [0; 12], want: [None; 12], next: 100 };
            for s in 0..12 {
                m.home[s] = s as V;
                m.want[s] = Some(s as V);
            }
            let n = g.max_ops;
            for _ in 0..n {
                let s = g.choose(12) as u16;
                match g.choose(9) {
                    0 | 1 => {
                        // read an operand into a register, others pinned
                        if m.want[s as usize].is_none() {
                            continue;
                        }
                        let pins: Vec<GP> = (0..g.choose(3)).map(|_| g.pick(GP_ALLOC_SET)).collect();
                        g.log(|| format!("load {s} pinned {pins:?}"));
                        if f.reg_of(SlotId(s)).is_none() {
                            let (r, sp) = f.alloc_reg(&pins);
                            if pins.contains(&r) {
                                return Err(format!("the pinned {r:?} was handed out"));
                            }
                            if !f.is_free(r) {
                                return Err(format!("{r:?} is handed out still bound"));
                            }
                            if let Some(x) = sp {
                                spill(&mut m, x);
                            }
                            m.reg.insert(ix(r), m.home[s as usize]);
                            f.bind(r, SlotId(s), false);
                        }
                    }
                    2 | 3 => {
                        // define a slot in a register
                        let pins: Vec<GP> = (0..g.choose(3)).map(|_| g.pick(GP_ALLOC_SET)).collect();
                        g.log(|| format!("define {s} pinned {pins:?}"));
                        f.invalidate(SlotId(s));
                        m.want[s as usize] = None;
                        agree(&f, &m)?;
                        let (r, sp) = f.alloc_reg(&pins);
                        if pins.contains(&r) {
                            return Err(format!("the pinned {r:?} was handed out"));
                        }
                        if let Some(x) = sp {
                            spill(&mut m, x);
                        }
                        m.next += 1;
                        m.reg.insert(ix(r), m.next);
                        m.want[s as usize] = Some(m.next);
                        f.bind(r, SlotId(s), true);
                        if f.reg_of(SlotId(s)) != Some(r) || f.dirty_reg_of(SlotId(s)) != Some(r) {
                            return Err(format!("bind({r:?}, {s}, true) is not what the file says"));
                        }
                    }
                    4 => {
                        // define in place: the register of an operand takes the result
                        if let Some(r) = f.reg_of(SlotId(s)) {
                            if f.dirty_reg_of(SlotId(s)).is_some() {
                                m.home[s as usize] = m.reg[&ix(r)];
                                f.sync(SlotId(s));
                            }
                            let t = g.choose(12) as u16;
                            g.log(|| format!("define {t} in the register of {s}"));
                            m.next += 1;
                            m.reg.insert(ix(r), m.next);
                            m.want[t as usize] = Some(m.next);
                            f.bind(r, SlotId(t), true);
                        }
                    }
                    5 => {
                        let e = f.reg_of(SlotId(s));
                        let r = f.sync(SlotId(s));
                        g.log(|| format!("sync {s}"));
                        if r != e || f.reg_of(SlotId(s)) != e {
                            return Err(format!("sync({s}) = {r:?} with the slot in {e:?}"));
                        }
                        if let Some(r) = r {
                            m.home[s as usize] = m.reg[&ix(r)];
                        }
                        if f.dirty_reg_of(SlotId(s)).is_some() {
                            return Err(format!("slot {s} still dirty after sync"));
                        }
                    }
                    6 => {
                        g.log(|| format!("free above {s}"));
                        f.free_above_sp(SlotId(s));
                        for t in s..12 {
                            m.want[t as usize] = None;
                            if f.reg_of(SlotId(t)).is_some() {
                                return Err(format!("slot {t} kept above {s}"));
                            }
                        }
                    }
                    7 => {
                        g.log(|| format!("store {s}"));
                        f.invalidate(SlotId(s));
                        m.next += 1;
                        m.home[s as usize] = m.next;
                        m.want[s as usize] = Some(m.next);
                    }
                    _ => {
                        g.log(|| "flush".to_string());
                        let x = f.take_dirty_spills();
                        for y in x {
                            spill(&mut m, y);
                        }
                        if !f.is_empty() {
                            return Err("not empty after the flush".into());
                        }
                    }
                }
                agree(&f, &m)?;
            }
            for y in f.take_dirty_spills() {
                spill(&mut m, y);
            }
            agree(&f, &m)
        }
        /// straight-line code: running the actions gives every live slot its value at home
        pub fn block(g: &mut Gen) -> Result<(), String> {
            let slots = g.pick(&[3u16, 5, 12]);
            let mut want: Vec<Option<String>> = (0..12).map(|s| if s < slots { Some(format!("s{s}")) } else { None }).collect();
            let mut insts = vec![];
            for _ in 0..g.max_ops {
                let live: Vec<u16> = (0..slots).filter(|&s| want[s as usize].is_some()).collect();
                if live.is_empty() {
                    break;
                }
                let (l, r) = (g.pick(&live), g.pick(&live));
                let d = g.choose(slots as u32) as u16;
                let next = if g.choose(3) == 0 { slots } else { d + 1 + g.choose((slots - d) as u32) as u16 };
                let kind = g.pick(&[BinOpK::Add, BinOpK::Sub]);
                let v = format!("({} {kind:?} {})", want[l as usize].clone().unwrap(), want[r as usize].clone().unwrap());
                want[d as usize] = Some(if v.len() > 4000 { return Ok(()) } else { v });
                for s in next..slots {
                    want[s as usize] = None;
                }
                insts.push(BinOpInst { kind, dst: SlotId(d), lhs: SlotId(l), rhs: SlotId(r), next_sp: SlotId(next) });
                g.log(|| format!("{d} = {l} {kind:?} {r} sp {next}"));
            }
            let mut home: Vec<String> = (0..12).map(|s| format!("s{s}")).collect();
            let mut reg: HashMap<usize, String> = HashMap::new();
            let get = |reg: &HashMap<usize, String>, r: GP| reg.get(&ix(r)).cloned().ok_or(format!("{r:?} is read before it is set"));
            let mut ops = 0;
            for a in allocate_run(&insts) {
                match a {
                    GpAction::Load { slot, reg: r, guard } => {
                        if !guard {
                            return Err("a fresh load without its type guard".into());
                        }
                        reg.insert(ix(r), home[slot.0 as usize].clone());
                    }
                    GpAction::BinOp { kind, dst, lhs, rhs } => {
                        if ops >= insts.len() || kind != insts[ops].kind {
                            return Err("operations differ from the program".into());
                        }
                        ops += 1;
                        let v = format!("({} {kind:?} {})", get(&reg, lhs)?, get(&reg, rhs)?);
                        reg.insert(ix(dst), v);
                        if rhs == dst && lhs != rhs {
                            return Err("the result overwrites the right operand before it is used".into());
                        }
                    }
                    GpAction::Spill { reg: r, slot } => home[slot.0 as usize] = get(&reg, r)?,
                }
            }
            if ops != insts.len() {
                return Err("operations are missing".into());
            }
            for s in 0..slots as usize {
                if let Some(w) = &want[s] {
                    if home[s] != *w {
                        return Err(format!("slot {s} ends as {}, expected {w}", home[s]));
                    }
                }
            }
            Ok(())
        }
    }
}
fn main() {
    drv::main_with(&[
        Plan { name: "C26_history", f: codegen::jitgen::history, exhaustive: Some((2, 100000)), random: &[(8, 60000), (40, 20000)] },
        Plan { name: "C26_block", f: codegen::jitgen::block, exhaustive: Some((2, 60000)), random: &[(4, 60000), (12, 60000)] },
    ]);
}
