//! Random circuit specs.
use crate::rcirc::{Gate, Table};
use crate::rcirc::*;
use crate::util::*;
use halo2_proofs::arithmetic::FieldExt;
use std::collections::{BTreeMap, BTreeSet};
use vh_common::*;

#[derive(Clone, Copy)]
pub struct Opt {
    pub phases: bool,
    pub lookups: bool,
    pub instance: bool,
    pub max_gates: usize,
    pub max_regs: usize,
    pub max_degree: usize,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { phases: true, lookups: true, instance: true, max_gates: 4, max_regs: 5, max_degree: 5 }
    }
}

struct B<'a, F: FieldExt> {
    g: &'a mut G,
    s: Spec<F>,
    o: Opt,
    /// data selectors per unit
    data_sel: BTreeMap<usize, Vec<usize>>,
}

fn boxed<T>(t: T) -> Box<T> {
    Box::new(t)
}

impl<'a, F: FieldExt> B<'a, F> {
    fn rot(&mut self) -> i32 {
        [0, 0, 0, 1, -1, 2, -2, 3][self.g.usize(8)]
    }
    /// expression of degree at most `deg` over columns of rank below `rank` and phase at most `ph`
    fn ex(&mut self, deg: usize, depth: usize, rank: usize, ph: u8, unit: Option<usize>) -> X<F> {
        let leafy = depth == 0 || self.g.chance(1, 3);
        if leafy {
            return self.leaf(deg, rank, ph, unit);
        }
        match self.g.below(6) {
            0 => X::Neg(boxed(self.ex(deg, depth - 1, rank, ph, unit))),
            1 => {
                let f = fe(self.g);
                X::Scale(boxed(self.ex(deg, depth - 1, rank, ph, unit)), f)
            }
            2 => {
                let a = self.ex(deg, depth - 1, rank, ph, unit);
                let b = self.ex(deg, depth - 1, rank, ph, unit);
                X::Add(boxed(a), boxed(b))
            }
            3 => {
                let a = self.ex(deg, depth - 1, rank, ph, unit);
                let b = self.ex(deg, depth - 1, rank, ph, unit);
                X::Sub(boxed(a), boxed(b))
            }
            _ => {
                if deg == 0 {
                    return self.leaf(deg, rank, ph, unit);
                }
                let d1 = self.g.range(0, deg);
                let a = self.ex(d1, depth - 1, rank, ph, unit);
                let b = self.ex(deg - d1, depth - 1, rank, ph, unit);
                X::Mul(boxed(a), boxed(b))
            }
        }
    }
    fn leaf(&mut self, deg: usize, rank: usize, ph: u8, unit: Option<usize>) -> X<F> {
        let chs: Vec<usize> = (0..self.s.chals.len()).filter(|&i| self.s.chals[i] < ph).collect();
        if deg == 0 || self.g.chance(1, 8) {
            if !chs.is_empty() && self.g.chance(2, 3) {
                return X::Ch(*self.g.pick(&chs));
            }
            return X::C(fe(self.g));
        }
        let advs: Vec<usize> = (0..self.s.adv.len()).filter(|&i| self.s.adv[i].rank < rank && self.s.adv[i].phase <= ph).collect();
        let fixs: Vec<usize> = (0..self.s.fix.len()).filter(|&i| self.s.fix[i].kind == FixKind::Data).collect();
        let nin = self.s.inst.len() - self.s.out_inst.map_or(0, |_| 1);
        let w = [6, if fixs.is_empty() { 0 } else { 2 }, if nin == 0 { 0 } else { 1 }, if chs.is_empty() { 0 } else { 2 }, if unit.is_some() { 1 } else { 0 }];
        let r = self.rot();
        match self.g.weighted(&w) {
            0 => X::A(*self.g.pick(&advs), r),
            1 => X::F(*self.g.pick(&fixs), r),
            2 => X::I(self.g.usize(nin), r),
            3 => X::Ch(*self.g.pick(&chs)),
            _ => {
                let u = unit.unwrap();
                let have = self.data_sel.get(&u).cloned().unwrap_or_default();
                if !have.is_empty() && self.g.bool() {
                    X::S(*self.g.pick(&have))
                } else {
                    self.s.sels.push(true);
                    let i = self.s.sels.len() - 1;
                    self.data_sel.entry(u).or_default().push(i);
                    X::S(i)
                }
            }
        }
    }
    fn phase_of(&self, e: &X<F>) -> u8 {
        let mut l = vec![];
        e.leaves(&mut l);
        l.iter()
            .map(|x| match x {
                X::A(c, _) => self.s.adv[*c].phase,
                X::Ch(i) => self.s.chals[*i] + 1,
                _ => 0,
            })
            .max()
            .unwrap_or(0)
    }
    fn new_out(&mut self, phase: u8) -> usize {
        let maxp = self.s.adv.iter().map(|a| a.phase).max().unwrap();
        let p = if self.g.chance(1, 6) { maxp } else { phase };
        let rank = self.s.adv.iter().map(|a| a.rank).max().unwrap() + 1;
        let eq = self.g.chance(2, 3);
        self.s.adv.push(Adv { phase: p.max(phase), eq, small: 0, rank });
        self.s.adv.len() - 1
    }
    fn unit(&mut self, simple_ok: bool) -> usize {
        let k = self.g.below(if simple_ok { 5 } else { 3 });
        let u = match k {
            0 | 4 if simple_ok => {
                self.s.sels.push(false);
                Unit::Sel(self.s.sels.len() - 1)
            }
            3 => {
                self.s.sels.push(false);
                Unit::Sel(self.s.sels.len() - 1)
            }
            1 => {
                self.s.fix.push(Fix { eq: false, kind: FixKind::Gating });
                Unit::Fix(self.s.fix.len() - 1)
            }
            _ => {
                self.s.sels.push(true);
                Unit::Sel(self.s.sels.len() - 1)
            }
        };
        self.s.units.push(u);
        self.s.units.len() - 1
    }

    fn columns(&mut self) {
        let maxp = if self.o.phases { [0u8, 0, 0, 1, 1, 2][self.g.usize(6)] } else { 0 };
        for p in 0..=maxp {
            let n = self.g.range(1, if p == 0 { 4 } else { 2 });
            for _ in 0..n {
                let eq = self.g.chance(2, 3);
                let small = if self.g.chance(1, 5) { self.g.range(1, 3) as u64 + 1 } else { 0 };
                self.s.adv.push(Adv { phase: p, eq, small, rank: 0 });
            }
            if maxp > 0 {
                for _ in 0..self.g.usize(3) {
                    self.s.chals.push(p);
                }
            }
        }
        for _ in 0..self.g.usize(3) {
            let eq = self.g.bool();
            self.s.fix.push(Fix { eq, kind: FixKind::Data });
        }
        for _ in 0..[0, 1, 1, 2][self.g.usize(4)] {
            self.s.fix.push(Fix { eq: false, kind: FixKind::Consts });
        }
        if self.o.instance {
            for _ in 0..self.g.usize(3) {
                let l = self.g.usize(6);
                self.s.inst.push(l);
                self.s.inst_eq.push(self.g.chance(2, 3));
            }
            if self.g.chance(2, 3) {
                self.s.out_inst = Some(self.s.inst.len());
                self.s.inst.push(0);
                self.s.inst_eq.push(true);
            }
        }
    }

    fn gates(&mut self) {
        let n = self.g.range(0, self.o.max_gates);
        for _ in 0..n {
            let gate_units: Vec<usize> = self.s.gates.iter().map(|g| g.unit).collect();
            let unit = if !gate_units.is_empty() && self.g.chance(1, 4) { *self.g.pick(&gate_units) } else { self.unit(true) };
            let complex = !matches!(self.s.units[unit], Unit::Sel(i) if !self.s.sels[i]);
            let _ = complex;
            let np = [1, 1, 2, 3][self.g.usize(4)];
            let mut polys = vec![];
            let fac = if !self.s.chals.is_empty() && self.g.chance(1, 5) { Some(X::Ch(self.g.usize(self.s.chals.len()))) } else { None };
            for _ in 0..np {
                let smalls: Vec<usize> = (0..self.s.adv.len()).filter(|&i| self.s.adv[i].small > 0).collect();
                if !smalls.is_empty() && self.g.chance(1, 4) {
                    let col = *self.g.pick(&smalls);
                    let rot = self.rot();
                    polys.push(Poly::Small { col, rot, m: self.s.adv[col].small });
                    continue;
                }
                let deg = self.g.range(1, self.o.max_degree - 1);
                let ph = self.g.below(self.s.adv.iter().map(|a| a.phase).max().unwrap() as u64 + 1) as u8;
                let rank = self.s.adv.iter().map(|a| a.rank).max().unwrap() + 1;
                let e = self.ex(deg, 3, rank, ph, Some(unit));
                let p = self.phase_of(&e);
                let col = self.new_out(p);
                let rot = self.rot();
                polys.push(Poly::Out { col, rot, e });
            }
            let style = self.g.below(5);
            self.s.gates.push(Gate { unit, style, fac, polys });
        }
    }

    fn tables(&mut self) {
        if !self.o.lookups || self.g.chance(2, 5) {
            return;
        }
        for _ in 0..self.g.usize(3) {
            let w = self.g.range(1, 3);
            let cols: Vec<usize> = (0..w).map(|i| self.s.ntab + i).collect();
            self.s.ntab += w;
            let nr = self.g.range(1, 6);
            let rows = (0..nr)
                .map(|i| (0..w).map(|_| if i > 0 && self.g.chance(1, 4) { F::zero() } else { fe(self.g) }).collect())
                .collect();
            self.s.tables.push(Table { cols, rows });
        }
        let n = self.g.range(1, 3);
        for _ in 0..n {
            let again = matches!(self.s.lks.last(), Some(l) if matches!(l.tab, Tab::Static(..))) && self.g.chance(1, 3);
            let stat = again || !self.s.tables.is_empty() && self.g.bool();
            let maxp = self.s.adv.iter().map(|a| a.phase).max().unwrap();
            let rank = self.s.adv.iter().map(|a| a.rank).max().unwrap() + 1;
            let unit = self.unit(false);
            let (tab, w, mut tp) = if stat {
                let prev = self.s.lks.last().and_then(|l| if let Tab::Static(t, c) = &l.tab { Some((*t, c.clone())) } else { None });
                if let Some((t, mut cols)) = prev.filter(|_| self.g.chance(3, 5)) {
                    // the table of the lookup before, with at most one column changed
                    let have = self.s.tables[t].cols.len();
                    let i = self.g.usize(cols.len());
                    cols[i] = self.g.usize(have);
                    let w = cols.len();
                    (Tab::Static(t, cols), w, vec![0; w])
                } else {
                    let t = self.g.usize(self.s.tables.len());
                    let have = self.s.tables[t].cols.len();
                    let w = self.g.range(1, have);
                    let off = self.g.usize(have);
                    let cols: Vec<usize> = (0..w).map(|i| (i + off) % have).collect();
                    (Tab::Static(t, cols), w, vec![0; w])
                }
            } else {
                // sometimes share table expressions with an earlier lookup
                let prev: Vec<Tab<F>> = self.s.lks.iter().filter(|l| matches!(l.tab, Tab::Any { .. })).map(|l| l.tab.clone()).collect();
                if !prev.is_empty() && self.g.chance(1, 2) {
                    let mut t = self.g.pick(&prev).clone();
                    let mut tp = vec![];
                    let twist = self.g.below(3);
                    let f = F::from(2 + self.g.below(5));
                    if let Tab::Any { exprs, .. } = &mut t {
                        let at = self.g.usize(exprs.len());
                        if twist == 1 {
                            exprs[at] = X::Scale(boxed(exprs[at].clone()), f);
                        } else if twist == 2 {
                            exprs[at] = X::Add(boxed(exprs[at].clone()), boxed(X::C(f)));
                        }
                        tp = exprs.iter().map(|e| self.phase_of(e)).collect();
                    }
                    let w = tp.len();
                    (t, w, tp)
                } else {
                    let tu = self.unit(false);
                    let w = self.g.range(1, 3);
                    let ph = self.g.below(maxp as u64 + 1) as u8;
                    let exprs: Vec<X<F>> = (0..w)
                        .map(|_| {
                            let d = self.g.range(1, 2);
                            self.ex(d, 1, rank, ph, None)
                        })
                        .collect();
                    let tp = exprs.iter().map(|e| self.phase_of(e)).collect();
                    (Tab::Any { unit: tu, exprs }, w, tp)
                }
            };
            let mut ins = vec![];
            for j in 0..w {
                let ph = self.g.below(maxp as u64 + 1) as u8;
                let d = self.g.range(0, 2);
                let e = if self.g.chance(1, 2) { X::C(fe(self.g)) } else { self.ex(d, 1, rank, ph, None) };
                let p = self.phase_of(&e).max(tp[j]);
                let col = self.new_out(p);
                let rot = self.rot();
                ins.push((col, rot, e));
            }
            tp.clear();
            self.s.lks.push(Lk { unit, ins, tab });
        }
    }

    /// make sure the cells an expression reads exist in the region
    fn touch(&mut self, reg: &mut Reg<F>, e: &X<F>, o: usize) {
        let mut l = vec![];
        e.leaves(&mut l);
        for x in l {
            match x {
                X::A(c, r) => {
                    reg.adv.entry((*c, (o as i64 + *r as i64) as usize)).or_insert(Rule::Free);
                }
                X::F(c, r) => {
                    let v = fe(self.g);
                    reg.fix.entry((*c, (o as i64 + *r as i64) as usize)).or_insert(v);
                }
                _ => {}
            }
        }
    }
    fn set_unit(&mut self, reg: &mut Reg<F>, u: usize, o: usize, one: bool) {
        match self.s.units[u] {
            Unit::Sel(i) => {
                reg.sels.insert((i, o));
            }
            Unit::Fix(c) => {
                let v = if one || self.g.bool() { F::one() } else { nz(self.g) };
                reg.fix.insert((c, o), v);
            }
        }
        for d in self.data_sel.get(&u).cloned().unwrap_or_default() {
            if self.g.bool() {
                reg.sels.insert((d, o));
            }
        }
    }

    fn regions(&mut self) {
        let nr = self.g.range(1, self.o.max_regs);
        let mut table_rows: Vec<(usize, usize, usize)> = vec![]; // unit, region, offset
        let base = 3usize;
        for r in 0..nr {
            let mut reg = Reg { adv: BTreeMap::new(), fix: BTreeMap::new(), sels: BTreeSet::new(), eqs: vec![], back: self.g.bool() };
            let gate_units: Vec<usize> = {
                let mut v: Vec<usize> = self.s.gates.iter().map(|g| g.unit).collect();
                v.sort_unstable();
                v.dedup();
                v
            };
            let mut fresh_tab = vec![];
            for _ in 0..self.g.range(1, 5) {
                let o = base + self.g.usize(5);
                let w = [if gate_units.is_empty() { 0 } else { 5 }, if self.s.lks.is_empty() { 0 } else { 4 }, 2];
                match self.g.weighted(&w) {
                    0 => {
                        let u = *self.g.pick(&gate_units);
                        let gs: Vec<usize> = (0..self.s.gates.len()).filter(|&i| self.s.gates[i].unit == u).collect();
                        // all computed cells must be open
                        let mut ok = true;
                        for &gi in &gs {
                            for p in &self.s.gates[gi].polys {
                                if let Poly::Out { col, rot, .. } = p {
                                    let at = (o as i64 + *rot as i64) as usize;
                                    if !matches!(reg.adv.get(&(*col, at)), None | Some(Rule::Free)) {
                                        ok = false;
                                    }
                                }
                            }
                        }
                        if !ok {
                            continue;
                        }
                        for &gi in &gs {
                            let polys = self.s.gates[gi].polys.clone();
                            for (pi, p) in polys.iter().enumerate() {
                                match p {
                                    Poly::Out { col, rot, e } => {
                                        self.touch(&mut reg, e, o);
                                        reg.adv.insert((*col, (o as i64 + *rot as i64) as usize), Rule::Gate(gi, pi, o));
                                    }
                                    Poly::Small { col, rot, .. } => {
                                        reg.adv.entry((*col, (o as i64 + *rot as i64) as usize)).or_insert(Rule::Free);
                                    }
                                }
                            }
                        }
                        self.set_unit(&mut reg, u, o, false);
                    }
                    1 => {
                        let li = self.g.usize(self.s.lks.len());
                        let l = self.s.lks[li].clone();
                        let mut make_table = false;
                        let src = match &l.tab {
                            Tab::Static(t, _) => Some(Src::Row(self.g.usize(self.s.tables[*t].rows.len()))),
                            Tab::Any { unit, .. } => {
                                let c: Vec<_> = table_rows.iter().filter(|x| x.0 == *unit).collect();
                                if c.is_empty() || self.g.chance(1, 3) {
                                    make_table = true;
                                    None
                                } else {
                                    let c = self.g.pick(&c);
                                    Some(Src::At(c.1, c.2))
                                }
                            }
                        };
                        if make_table {
                            if let Tab::Any { unit, .. } = &l.tab {
                                // every lookup into this table reads the same unit
                                let all: Vec<X<F>> = self.s.lks.iter().filter_map(|x| if let Tab::Any { unit: v, exprs } = &x.tab { if v == unit { Some(exprs.clone()) } else { None } } else { None }).flatten().collect();
                                for e in &all {
                                    self.touch(&mut reg, e, o);
                                }
                                let unit = *unit;
                                self.set_unit(&mut reg, unit, o, true);
                                fresh_tab.push((unit, r, o));
                            }
                            continue;
                        }
                        let src = src.unwrap();
                        let ok = l.ins.iter().all(|(col, rot, _)| matches!(reg.adv.get(&(*col, (o as i64 + *rot as i64) as usize)), None | Some(Rule::Free)));
                        if !ok {
                            continue;
                        }
                        for (j, (col, rot, e)) in l.ins.iter().enumerate() {
                            self.touch(&mut reg, e, o);
                            reg.adv.insert((*col, (o as i64 + *rot as i64) as usize), Rule::Look(li, j, src.clone(), o));
                        }
                        self.set_unit(&mut reg, l.unit, o, true);
                    }
                    _ => {
                        // stray cells
                        let c = self.g.usize(self.s.adv.len());
                        reg.adv.entry((c, o)).or_insert(Rule::Free);
                        let fixs: Vec<usize> = (0..self.s.fix.len()).filter(|&i| self.s.fix[i].kind == FixKind::Data).collect();
                        if !fixs.is_empty() && self.g.bool() {
                            let v = fe(self.g);
                            reg.fix.entry((*self.g.pick(&fixs), o)).or_insert(v);
                        }
                    }
                }
            }
            if reg.adv.is_empty() {
                reg.adv.insert((0, base), Rule::Free);
            }
            table_rows.extend(fresh_tab);
            self.normalize(&mut reg, r, &mut table_rows);
            self.s.regs.push(reg);
            self.s.items.push(Item::Reg(r));
        }
        for t in 0..self.s.tables.len() {
            let p = self.g.usize(self.s.items.len() + 1);
            self.s.items.insert(p, Item::Tab(t));
        }
    }

    /// shift a region so that its first used offset is small
    fn normalize(&mut self, reg: &mut Reg<F>, r: usize, tabs: &mut Vec<(usize, usize, usize)>) {
        let min = reg.adv.keys().map(|k| k.1).chain(reg.fix.keys().map(|k| k.1)).chain(reg.sels.iter().map(|k| k.1)).min().unwrap();
        let keep = if self.g.chance(1, 6) { 1 } else { 0 };
        let d = min.saturating_sub(keep);
        reg.adv = reg
            .adv
            .iter()
            .map(|((c, o), rule)| {
                let rule = match rule {
                    Rule::Gate(a, b, at) => Rule::Gate(*a, *b, at - d),
                    Rule::Look(a, b, s, at) => Rule::Look(*a, *b, s.clone(), at - d),
                    x => x.clone(),
                };
                ((*c, o - d), rule)
            })
            .collect();
        reg.fix = reg.fix.iter().map(|((c, o), v)| ((*c, o - d), *v)).collect();
        reg.sels = reg.sels.iter().map(|(c, o)| (*c, o - d)).collect();
        for t in tabs.iter_mut() {
            if t.1 == r {
                t.2 -= d;
            }
        }
    }

    fn links(&mut self) {
        // evaluation order of all advice cells
        let mut order: Vec<Id> = vec![];
        for (r, reg) in self.s.regs.iter().enumerate() {
            let mut v: Vec<_> = reg.adv.keys().copied().collect();
            v.sort_by_key(|(c, o)| (self.s.adv[*c].rank, *c, *o));
            order.extend(v.into_iter().map(|(c, o)| (r, Co::A(c), o)));
        }
        let has_const = self.s.fix.iter().any(|f| f.kind == FixKind::Consts);
        let nin = self.s.inst.len() - self.s.out_inst.map_or(0, |_| 1);
        let mut class: BTreeMap<Id, usize> = BTreeMap::new();
        for (i, id) in order.iter().enumerate() {
            class.insert(*id, i);
        }
        let density = self.g.range(0, 4) as u64;
        for i in 0..order.len() {
            let id = order[i];
            let (r, c, o) = match id {
                (r, Co::A(c), o) => (r, c, o),
                _ => unreachable!(),
            };
            if !matches!(self.s.regs[r].adv[&(c, o)], Rule::Free) || !self.s.adv[c].eq || !self.g.chance(density, 5) {
                continue;
            }
            let small = self.s.adv[c].small;
            let style = self.g.bool();
            let rule = match self.g.below(6) {
                0 if has_const => {
                    let f = if small > 0 { F::from(self.g.below(small)) } else { fe(self.g) };
                    Some(Rule::Const(f, style))
                }
                1 if small == 0 => {
                    let c: Vec<usize> = (0..nin).filter(|&i| self.s.inst_eq[i] && self.s.inst[i] > 0).collect();
                    if c.is_empty() {
                        None
                    } else {
                        let i = *self.g.pick(&c);
                        Some(Rule::Inst(i, self.g.usize(self.s.inst[i]), style))
                    }
                }
                2 if small == 0 => {
                    let c: Vec<Id> = self.s.regs.iter().enumerate().take(r + 1).flat_map(|(r, g)| g.fix.keys().map(move |(c, o)| (r, Co::F(*c), *o))).filter(|(_, c, _)| matches!(c, Co::F(c) if self.s.fix[*c].eq)).collect();
                    if c.is_empty() {
                        None
                    } else {
                        Some(Rule::FixCopy(*self.g.pick(&c)))
                    }
                }
                _ => {
                    let ph = self.s.adv[c].phase;
                    let cand: Vec<Id> = order[..i]
                        .iter()
                        .filter(|x| match x.1 {
                            Co::A(k) => self.s.adv[k].eq && self.s.adv[k].phase <= ph && (small == 0 || self.s.adv[k].small == small),
                            _ => false,
                        })
                        .copied()
                        .collect();
                    if cand.is_empty() {
                        None
                    } else {
                        let s = *self.g.pick(&cand);
                        class.insert(id, class[&s]);
                        Some(Rule::Copy(s, style))
                    }
                }
            };
            if let Some(rule) = rule {
                self.s.regs[r].adv.insert((c, o), rule);
            }
        }
        // redundant equalities inside a class
        let mut by: BTreeMap<usize, Vec<Id>> = BTreeMap::new();
        for (id, c) in &class {
            by.entry(*c).or_default().push(*id);
        }
        for (_, v) in by.into_iter().filter(|x| x.1.len() > 1) {
            for _ in 0..self.g.usize(3) {
                let a = *self.g.pick(&v);
                let b = *self.g.pick(&v);
                let r = a.0.max(b.0);
                self.s.regs[r].eqs.push((a, b));
            }
        }
        // outputs
        if let Some(oi) = self.s.out_inst {
            let cand: Vec<Id> = order.iter().filter(|x| matches!(x.1, Co::A(k) if self.s.adv[k].eq && self.s.adv[k].phase == 0)).copied().collect();
            if !cand.is_empty() {
                let n = self.g.usize(4);
                for row in 0..n {
                    let id = *self.g.pick(&cand);
                    self.s.inst_outs.push((id, row));
                }
                self.s.inst[oi] = n;
            }
        }
    }
}

pub fn gen<F: FieldExt>(g: &mut G, o: Opt) -> Spec<F> {
    let s = Spec {
        adv: vec![],
        fix: vec![],
        inst: vec![],
        inst_eq: vec![],
        out_inst: None,
        chals: vec![],
        sels: vec![],
        ntab: 0,
        tab_first: g.bool(),
        units: vec![],
        gates: vec![],
        lks: vec![],
        tables: vec![],
        regs: vec![],
        items: vec![],
        inst_outs: vec![],
        min_degree: None,
        namespaces: g.bool(),
    };
    let mut b = B { g, s, o, data_sel: BTreeMap::new() };
    if b.g.chance(1, 6) {
        b.s.min_degree = Some(b.g.range(3, 7));
    }
    b.columns();
    b.gates();
    b.tables();
    b.regions();
    b.links();
    b.s
}

/// what a generated circuit contains, for the evidence
pub fn classes<F: FieldExt>(g: &mut G, s: &Spec<F>) {
    if !s.gates.is_empty() {
        g.class("gates");
    }
    if s.lks.iter().any(|l| matches!(l.tab, Tab::Static(..))) {
        g.class("table lookup");
    }
    if s.lks.iter().any(|l| matches!(l.tab, Tab::Any { .. })) {
        g.class("lookup_any");
    }
    if !s.chals.is_empty() {
        g.class("challenges");
    }
    if !s.inst.is_empty() {
        g.class("instance");
    }
    let rules: Vec<&Rule<F>> = s.regs.iter().flat_map(|r| r.adv.values()).collect();
    if rules.iter().any(|r| matches!(r, Rule::Copy(..))) {
        g.class("copies");
    }
    if rules.iter().any(|r| matches!(r, Rule::Const(..))) {
        g.class("constants");
    }
    if rules.iter().any(|r| matches!(r, Rule::Gate(..) | Rule::Look(..))) {
        g.class("active constraints");
        g.nontrivial();
    }
}
