//! P01: the Cartesian product under interrupted construction and enumeration.

#[allow(dead_code)]
#[path = "/repo/gearley-utils/src/cartesian_product.rs"]
mod cartesian_product;

use cartesian_product::CartesianProduct;
use simcore::*;

struct Model<'a, V> {
    factors: Vec<&'a [V]>,
    pos: Vec<usize>,
    /// False after factors were added in the middle of an enumeration: then only memory safety and
    /// the next complete enumeration are promised.
    exact: bool,
}

impl<'a, V> Model<'a, V> {
    fn advance(&mut self) -> bool {
        for (p, f) in self.pos.iter_mut().zip(&self.factors) {
            *p += 1;
            if *p < f.len() {
                return true;
            }
            *p = 0;
        }
        false
    }
    fn at_start(&self) -> bool {
        self.pos.iter().all(|&p| p == 0)
    }
    fn size(&self) -> usize {
        self.factors.iter().fold(1usize, |n, f| n.saturating_mul(f.len()))
    }
}

/// Compares by address only, without reading through the returned references.
fn check<V>(ctx: &mut Ctx, cp: &CartesianProduct<V>, m: &mut Model<V>, after: &str) -> R {
    ctx.step();
    let got: Vec<*const V> = {
        let s = cp.as_slice();
        // SAFETY of the simulation: `&V` is read as a pointer value only.
        (0..s.len()).map(|i| unsafe { *(s.as_ptr().add(i) as *const *const V) }).collect()
    };
    ensure!(got.len() == m.factors.len(), "combination-length", "after {after}: a combination has {} elements, {} factors were added", got.len(), m.factors.len());
    for (i, &p) in got.iter().enumerate() {
        let f = m.factors[i];
        let range = f.as_ptr_range();
        if std::mem::size_of::<V>() == 0 {
            ensure!(p == range.start, "outside-slice", "after {after}: element {i} points outside its factor");
            continue;
        }
        ensure!(range.contains(&p), "outside-slice", "after {after}: element {i} points outside its factor of {} elements", f.len());
        let idx = (p as usize - range.start as usize) / std::mem::size_of::<V>();
        ensure!((p as usize - range.start as usize) % std::mem::size_of::<V>() == 0, "misaligned", "after {after}: element {i} points between elements");
        if m.exact {
            ensure!(idx == m.pos[i], "wrong-combination", "after {after}: element {i} is number {idx} of its factor, expected {:?}", m.pos);
        } else {
            m.pos[i] = idx;
        }
    }
    Ok(())
}

fn pick_slice<'a, V>(ctx: &mut Ctx, arena: &'a [V], max: u32, empty: u32) -> &'a [V] {
    let len = if ctx.chance(empty, 16) { 0 } else { 1 + ctx.below(max) as usize };
    let start = ctx.below((arena.len() - len + 1) as u32) as usize;
    &arena[start..start + len]
}

fn run<V: 'static>(ctx: &mut Ctx, arena: &[V], zst: bool) -> R {
    let max_len = if zst { 3 } else { *ctx.pick(&[2u32, 4, 9]) };
    // Now and then more factors than any small array or machine word has room for.
    let max_factors = match ctx.below(100) {
        0..=32 => 3,
        33..=65 => 5,
        66..=97 => 12,
        98 => 40,
        _ => 300,
    };
    let singles = if max_factors > 12 { *ctx.pick(&[0u32, 8, 15]) } else { 0 };
    let empty_rate = *ctx.pick(&[0, 0, 2]);
    let fail_rate = *ctx.pick(&[0, 1, 3]);
    let mut cp = CartesianProduct::new();
    let mut m: Model<V> = Model { factors: vec![], pos: vec![], exact: true };
    check(ctx, &cp, &mut m, "creation")?;
    let mut wraps = 0;
    let mut work = 0;
    while work < 3000 && ctx.chance(19, 20) {
        let span = ctx.span_start();
        match ctx.weighted(&[4, 3, 1, 6, 2]) {
            0 => {
                if m.factors.len() < max_factors {
                    let s = pick_slice(ctx, arena, max_len, empty_rate);
                    ev!(ctx, "push {} elements", s.len());
                    let mid = !m.at_start();
                    match guard(|| cp.push(s)) {
                        Outcome::Done(()) => {
                            ensure!(!s.is_empty(), "empty-factor-accepted", "an empty factor was accepted; a combination would point into nothing");
                            m.factors.push(s);
                            m.pos.push(0);
                            m.exact &= !mid;
                        }
                        Outcome::Panicked(p) => {
                            ensure!(s.is_empty(), "panic-in-push", "{p}");
                            ctx.fired("empty-factor");
                        }
                        Outcome::Injected(_) => unreachable!(),
                    }
                    check(ctx, &cp, &mut m, "push")?;
                }
            }
            1 => {
                let n = if max_factors > 12 { ctx.below(max_factors as u32) } else { ctx.below(4) } as usize;
                let n = n.min(max_factors.saturating_sub(m.factors.len()));
                let slices: Vec<&[V]> = (0..n)
                    .map(|_| {
                        let max = if ctx.chance(singles, 16) { 1 } else { max_len };
                        pick_slice(ctx, arena, max, empty_rate)
                    })
                    .collect();
                let fail_at = if ctx.chance(fail_rate, 8) { Some(ctx.below(n as u32 + 1) as usize) } else { None };
                let lie = ctx.chance(1, 4);
                let hint = *ctx.pick(&[(5, Some(5)), (0, None), (0, Some(usize::MAX)), (0, Some(1 << 40)), (0, Some(0))]);
                ev!(ctx, "extend {:?} fail at {fail_at:?} lie {lie} {hint:?}", slices.iter().map(|s| s.len()).collect::<Vec<_>>());
                let mid = !m.at_start();
                if !m.factors.is_empty() && n > 0 {
                    ctx.probe("extend-after-factors");
                    ctx.nontrivial = true;
                }
                let mut k = 0;
                let given = std::cell::Cell::new(0usize);
                let it = {
                    let slices = slices.clone();
                    let given = &given;
                    std::iter::from_fn(move || {
                        if fail_at == Some(k) {
                            inject("iterator-panic");
                        }
                        k += 1;
                        let r = slices.get(k - 1).copied();
                        if r.is_some() {
                            given.set(k);
                        }
                        r
                    })
                };
                let had_empty = slices.iter().any(|s| s.is_empty());
                let r = if lie { guard(|| cp.extend(Lying(it, hint))) } else { guard(|| cp.extend(it)) };
                match r {
                    Outcome::Done(()) => {
                        ensure!(!had_empty, "empty-factor-accepted", "an empty factor was accepted; a combination would point into nothing");
                        for s in &slices {
                            m.factors.push(s);
                            m.pos.push(0);
                        }
                    }
                    Outcome::Injected(_) | Outcome::Panicked(_) => {
                        if let Outcome::Panicked(p) = &r {
                            ensure!(had_empty, "panic-in-extend", "{p}");
                            ctx.fired("empty-factor");
                        } else {
                            ctx.fired("iterator-panic");
                            ctx.nontrivial = true;
                        }
                        // Some prefix of what was delivered may have been added.
                        let added = cp.as_slice().len().wrapping_sub(m.factors.len());
                        ensure!(added <= given.get(), "interrupted-extend", "{} factors after an extension that delivered {}", cp.as_slice().len(), given.get());
                        ensure!(slices[..added].iter().all(|s| !s.is_empty()), "empty-factor-accepted", "an empty factor was accepted by an interrupted extension");
                        for s in &slices[..added] {
                            m.factors.push(s);
                            m.pos.push(0);
                        }
                    }
                }
                m.exact &= !mid;
                if m.factors.len() > 64 {
                    ctx.probe("many-factors");
                }
                check(ctx, &cp, &mut m, "extend")?;
            }
            2 => {
                cp.clear();
                m = Model { factors: vec![], pos: vec![], exact: true };
                ev!(ctx, "clear");
                check(ctx, &cp, &mut m, "clear")?;
            }
            3 => {
                // A burst of enumeration, possibly abandoned halfway.
                let n = 1 + ctx.below(40);
                let mut last = true;
                for _ in 0..n {
                    work += 1;
                    last = no_panic("advance", || cp.advance())?;
                    if m.exact {
                        let want = m.advance();
                        ensure!(last == want, "end-of-enumeration", "advance gave {last}, expected {want}, at {:?} of {:?}", m.pos, m.factors.iter().map(|f| f.len()).collect::<Vec<_>>());
                    } else if !last {
                        m.exact = true;
                        m.pos.iter_mut().for_each(|p| *p = 0);
                    }
                    check(ctx, &cp, &mut m, "advance")?;
                    if !last {
                        wraps += 1;
                    }
                }
                ev!(ctx, "advanced {n}, last {last}");
            }
            _ => {
                // One complete enumeration from the start, counting.
                let size = m.size();
                if m.exact && m.at_start() && size <= 600 {
                    let mut n = 1;
                    while no_panic("advance", || cp.advance())? {
                        m.advance();
                        check(ctx, &cp, &mut m, "advance")?;
                        n += 1;
                        ensure!(n <= size, "too-many-combinations", "more than {size} combinations");
                    }
                    m.advance();
                    work += n;
                    wraps += 1;
                    ensure!(n == size, "combination-count", "{n} combinations, expected {size} for {:?}", m.factors.iter().map(|f| f.len()).collect::<Vec<_>>());
                    check(ctx, &cp, &mut m, "enumeration")?;
                    ev!(ctx, "enumerated {n}");
                    ctx.probe("full-enumeration");
                }
            }
        }
        ctx.span_end(span);
    }
    ev!(ctx, "end {wraps} wraps, {} factors", m.factors.len());
    Ok(())
}

/// Size hints that are not helpful, true or not.
struct Lying<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Lying<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// Factors longer than what one or two bytes can count, enumerated to the end and over again.
fn long(ctx: &mut Ctx) -> R {
    let arena: Vec<u32> = (0..70_200).collect();
    let size = *ctx.pick(&[250u32, 254, 255, 300, 65_530, 65_535, 70_000]);
    let len = (size + ctx.below(12)) as usize;
    let other = 1 + ctx.below(if len > 1000 { 2 } else { 6 }) as usize;
    let third = 1 + ctx.below(2) as usize;
    let mut factors: Vec<&[u32]> = vec![&arena[..len], &arena[7..7 + other], &arena[100..100 + third]];
    let turn = ctx.below(3) as usize;
    factors.rotate_right(turn);
    ev!(ctx, "long factors {:?}", factors.iter().map(|f| f.len()).collect::<Vec<_>>());
    ctx.probe("long-factor");
    let mut cp = CartesianProduct::new();
    for round in 0..2 {
        if ctx.chance(1, 2) {
            no_panic("extend", || cp.extend(factors.iter().copied()))?;
        } else {
            for f in &factors {
                no_panic("push", || cp.push(f))?;
            }
        }
        let mut m = Model { factors: factors.clone(), pos: vec![0; 3], exact: true };
        // Up to the end and some way into the second time.
        let size = m.size();
        let n = size + ctx.below(600) as usize;
        for k in 0..n {
            let last = no_panic("advance", || cp.advance())?;
            let want = m.advance();
            ensure!(last == want, "end-of-enumeration", "advance number {k} of {size} gave {last}, expected {want}");
            let near = k % 256 < 3 || k % 256 > 253 || k + 5 > size || len < 1000;
            if near {
                check(ctx, &cp, &mut m, "advance")?;
            }
        }
        cp.clear();
        m = Model { factors: vec![], pos: vec![], exact: true };
        check(ctx, &cp, &mut m, "clear")?;
        ev!(ctx, "round {round}: {n} steps");
    }
    Ok(())
}

fn p01(ctx: &mut Ctx) -> R {
    if ctx.below(1500) == 1499 {
        return long(ctx);
    }
    match ctx.below(5) {
        0 => run(ctx, &(0..16u8).collect::<Vec<_>>(), false),
        1 => run(ctx, &(0..16u64).collect::<Vec<_>>(), false),
        2 => run(ctx, &(0..16u32).map(|i| [i; 3]).collect::<Vec<_>>(), false),
        3 => run(ctx, &(0..16u32).map(|i| i.to_string()).collect::<Vec<_>>(), false),
        _ => run(ctx, &[(); 16], true),
    }
}

fn main() {
    simcore::main(&[Prop {
        id: "P01",
        scenario: p01,
        rule: "seeded call histories on one product (adding factors singly, by iterator, by an iterator that fails or misreports its length, empty factors, clearing, bursts of enumeration, full enumerations) over five element types; non-trivial: factors were added by iterator to a non-empty product or an iterator failed midway",
        real: &["gearley-utils/src/cartesian_product.rs (all code)"],
        stubs: &["caller iterators"],
        assumptions: &["after factors are added in the middle of an enumeration only memory safety and the following complete enumerations are checked"],
        step_unit: "calls followed by an address-level comparison of the current combination",
        quick_secs: 12,
        thorough_secs: 240,
        quick_max_runs: 0,
        must_hit: &["iterator-panic", "empty-factor", "extend-after-factors", "full-enumeration", "many-factors", "long-factor"],
    }]);
}
