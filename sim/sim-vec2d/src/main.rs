//! V01: history refinement of the set-of-sets container under failing caller callbacks.
//! V02: checkpoint / crash / restore.

use gearley_vec2d::{Vec2d, Vec2dCapacity};
use simcore::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

// ------------------------------------------------------------------ items

/// What the container holds in a run: a plain copyable value, or a value with a drop ledger.
trait Elem: Clone + Sized + 'static {
    const NAME: &'static str;
    fn make(id: u32) -> Self;
    fn id(&self) -> u32;
    fn copy_truncate(v: &mut Vec2d<Self>, n: usize) -> bool;
}

impl Elem for u32 {
    const NAME: &'static str = "u32";
    fn make(id: u32) -> Self {
        id
    }
    fn id(&self) -> u32 {
        *self
    }
    fn copy_truncate(v: &mut Vec2d<Self>, n: usize) -> bool {
        v.truncate(n);
        true
    }
}

/// A wide copyable item, to move the byte boundaries of the flat array.
#[derive(Clone, Copy)]
struct Wide(u32, [u64; 4]);
impl Elem for Wide {
    const NAME: &'static str = "wide";
    fn make(id: u32) -> Self {
        Wide(id, [id as u64; 4])
    }
    fn id(&self) -> u32 {
        if self.1 == [self.0 as u64; 4] {
            self.0
        } else {
            u32::MAX
        }
    }
    fn copy_truncate(v: &mut Vec2d<Self>, n: usize) -> bool {
        v.truncate(n);
        true
    }
}

/// A zero-sized item.
#[derive(Clone, Copy)]
struct Unit;
impl Elem for Unit {
    const NAME: &'static str = "unit";
    fn make(_: u32) -> Self {
        Unit
    }
    fn id(&self) -> u32 {
        0
    }
    fn copy_truncate(v: &mut Vec2d<Self>, n: usize) -> bool {
        v.truncate(n);
        true
    }
}

thread_local! {
    static LEDGER: RefCell<HashMap<u64, u32>> = RefCell::new(HashMap::new());
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static CLONES_LEFT: Cell<i64> = const { Cell::new(-1) };
    static BAD_DROP: Cell<u32> = const { Cell::new(0) };
}

/// An item that knows whether it has been dropped exactly once, and whose clone can fail.
struct Tracked {
    id: u32,
    serial: u64,
}
impl Tracked {
    fn new(id: u32) -> Self {
        let serial = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        LEDGER.with(|l| l.borrow_mut().insert(serial, id));
        Tracked { id, serial }
    }
    fn live() -> usize {
        LEDGER.with(|l| l.borrow().len())
    }
    fn reset() {
        LEDGER.with(|l| l.borrow_mut().clear());
        NEXT.with(|n| n.set(0));
        BAD_DROP.with(|b| b.set(0));
        CLONES_LEFT.with(|c| c.set(-1));
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let gone = LEDGER.with(|l| l.borrow_mut().remove(&self.serial));
        if gone != Some(self.id) {
            BAD_DROP.with(|b| b.set(b.get() + 1));
        }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        let left = CLONES_LEFT.with(|c| c.get());
        if left == 0 {
            inject("clone-panic");
        }
        if left > 0 {
            CLONES_LEFT.with(|c| c.set(left - 1));
        }
        Tracked::new(self.id)
    }
}
impl Elem for Tracked {
    const NAME: &'static str = "tracked";
    fn make(id: u32) -> Self {
        Tracked::new(id)
    }
    fn id(&self) -> u32 {
        if LEDGER.with(|l| l.borrow().get(&self.serial) == Some(&self.id)) {
            self.id
        } else {
            u32::MAX
        }
    }
    fn copy_truncate(_: &mut Vec2d<Self>, _: usize) -> bool {
        false
    }
}

// ------------------------------------------------------------------ reference model

#[derive(Clone, Default, PartialEq, Debug)]
struct Model {
    sealed: Vec<Vec<u32>>,
    open: Vec<u32>,
}

impl Model {
    fn total(&self) -> usize {
        self.sealed.iter().map(|s| s.len()).sum::<usize>() + self.open.len()
    }
}

fn observe<T: Elem>(v: &Vec2d<T>) -> Outcome<Model> {
    guard(|| {
        let n = v.len() - 1;
        Model {
            sealed: (0..n).map(|i| v[i].iter().map(Elem::id).collect()).collect(),
            open: v.last().iter().map(Elem::id).collect(),
        }
    })
}

fn check_equal<T: Elem>(ctx: &mut Ctx, v: &Vec2d<T>, m: &Model, after: &str) -> R {
    let seen = match observe(v) {
        Outcome::Done(s) => s,
        Outcome::Injected(k) => fail!("escaped", "{k}"),
        Outcome::Panicked(p) => fail!("unreadable-after-operation", "after {after}: {p}"),
    };
    ensure!(v.len() == m.sealed.len() + 1, "set-count", "after {after}: len() {} but {} sealed sets", v.len(), m.sealed.len());
    ensure!(seen == *m, "contents", "after {after}: container holds {seen:?}, history implies {m:?}");
    let flat: Vec<u32> = m.sealed.iter().flatten().chain(&m.open).copied().collect();
    ensure!(v.item_count() == flat.len(), "item-count", "after {after}: item_count {} expected {}", v.item_count(), flat.len());
    let last = v.last_item().map(Elem::id);
    ensure!(last == flat.last().copied(), "last-item", "after {after}: last_item {last:?} expected {:?}", flat.last());
    let mut at = 0;
    for (i, s) in m.sealed.iter().enumerate() {
        let got = no_panic("index_at", || v.index_at(i))?;
        ensure!(got == at, "set-start", "after {after}: index_at({i}) {got} expected {at}");
        at += s.len();
    }
    let got = no_panic("index_at", || v.index_at(m.sealed.len()))?;
    ensure!(got == at, "set-start", "after {after}: index_at({}) {got} expected {at}", m.sealed.len());
    for (i, id) in flat.iter().enumerate() {
        let got = v.get_item(i).map(Elem::id);
        ensure!(got == Some(*id), "get-item", "after {after}: get_item({i}) {got:?} expected {id}");
    }
    ensure!(v.get_item(flat.len()).is_none(), "get-item", "after {after}: get_item past the end is not None");
    ensure!(BAD_DROP.with(|b| b.get()) == 0, "double-drop", "after {after}: an item was dropped twice or is garbage");
    ctx.step();
    Ok(())
}

/// Accepts exactly the states an interrupted extension may leave: the old contents, then some
/// prefix of what the caller's iterator had delivered, with sets sealed only if delivered in full.
fn interrupted_ok(old: &Model, full: &[Vec<u32>], partial: &[u32], now: &Model) -> bool {
    // Sealed: old sealed, then old.open + first complete set, ...
    let mut allowed: Vec<Model> = vec![];
    let mut base = old.clone();
    let add_prefixes = |base: &Model, next: &[u32], allowed: &mut Vec<Model>| {
        for k in 0..=next.len() {
            let mut m = base.clone();
            m.open.extend_from_slice(&next[..k]);
            allowed.push(m);
        }
    };
    for s in full {
        add_prefixes(&base, s, &mut allowed);
        base.open.extend_from_slice(s);
        let set = std::mem::take(&mut base.open);
        base.sealed.push(set);
    }
    add_prefixes(&base, partial, &mut allowed);
    allowed.contains(now)
}

// ------------------------------------------------------------------ misbehaving caller iterators

struct Flaky<T> {
    items: std::collections::VecDeque<T>,
    /// Fail after this many items.
    fail_at: Option<usize>,
    given: usize,
    hint: (usize, Option<usize>),
    ended: bool,
    more: std::collections::VecDeque<T>,
    delivered: std::rc::Rc<RefCell<Vec<u32>>>,
    failed: std::rc::Rc<Cell<bool>>,
}
impl<T: Elem> Iterator for Flaky<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.fail_at == Some(self.given) {
            self.failed.set(true);
            inject("iterator-panic");
        }
        self.given += 1;
        if self.items.is_empty() && !self.ended {
            // Asked again after its end, it may go on.
            self.ended = true;
            return None;
        }
        let it = self.items.pop_front().or_else(|| self.more.pop_front());
        if let Some(it) = &it {
            self.delivered.borrow_mut().push(it.id());
        }
        it
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

struct Swarm {
    iter_fail: u32,
    hint_lie: u32,
    clone_fail: u32,
    max_set: u32,
    ops: u32,
}

fn flaky<T: Elem>(ctx: &mut Ctx, sw: &Swarm, next_id: &mut u32) -> (Flaky<T>, Vec<u32>, std::rc::Rc<RefCell<Vec<u32>>>) {
    let n = ctx.below(sw.max_set + 1) as usize;
    let ids: Vec<u32> = (0..n)
        .map(|_| {
            *next_id += 1;
            if std::mem::size_of::<T>() == 0 { 0 } else { *next_id }
        })
        .collect();
    let fail_at = if ctx.chance(sw.iter_fail, 8) { Some(ctx.below(n as u32 + 1) as usize) } else { None };
    let hint = if ctx.chance(sw.hint_lie, 8) {
        ctx.fired("size-hint-lie");
        match ctx.below(4) {
            0 => (0, None),
            1 => (0, Some(0)),
            2 => (n + 3, Some(n + 3)),
            _ => (0, Some(n / 2)),
        }
    } else {
        (n, Some(n))
    };
    let delivered = std::rc::Rc::new(RefCell::new(vec![]));
    let more: Vec<T> = if ctx.chance(sw.hint_lie, 8) {
        ctx.fired("goes-on-after-its-end");
        (0..2).map(|i| T::make(if std::mem::size_of::<T>() == 0 { 0 } else { 7_000_000 + i })).collect()
    } else {
        vec![]
    };
    let f = Flaky { items: ids.iter().map(|&i| T::make(i)).collect(), fail_at, given: 0, hint, ended: false, more: more.into(), delivered: delivered.clone(), failed: Default::default() };
    (f, ids, delivered)
}

/// Now and then the history starts with a big container, past one- and two-byte boundaries.
fn bulk<T: Elem>(ctx: &mut Ctx, v: &mut Vec2d<T>, m: &mut Model, next_id: &mut u32) -> R {
    let (sets, items) = match ctx.below(4000) {
        3999 => (3, 22_000),
        3998 => (66_000, 1),
        3997 => (1, 65_530 + ctx.below(12)),
        3996 => (2, 66_000),
        3950..=3995 => (260, 2),
        3930..=3949 => (2, 250 + ctx.below(12)),
        _ => return Ok(()),
    };
    let singly = ctx.chance(1, 2);
    ctx.probe("big-container");
    ev!(ctx, "start with {sets} sets of {items} items");
    for _ in 0..sets {
        let ids: Vec<u32> = (0..items).map(|i| if std::mem::size_of::<T>() == 0 { 0 } else { *next_id + i + 1 }).collect();
        *next_id += items;
        if singly {
            for &i in &ids {
                v.push_item(T::make(i));
            }
            v.next_set();
        } else {
            v.extend_with_set(ids.iter().map(|&i| T::make(i)));
        }
        m.sealed.push(ids);
    }
    if ctx.chance(1, 2) {
        // The last one stays open.
        ctx.probe("big-open-set");
        for i in 0..items {
            let id = if std::mem::size_of::<T>() == 0 { 0 } else { *next_id + i + 1 };
            v.push_item(T::make(id));
            m.open.push(id);
        }
        *next_id += items;
    }
    check_equal(ctx, v, m, "bulk")
}

fn new_container<T: Elem>(ctx: &mut Ctx) -> Vec2d<T> {
    match ctx.below(3) {
        0 => Vec2d::new(),
        1 => Default::default(),
        _ => {
            let most = *ctx.pick(&[40, 40, 40, 5000]);
            Vec2d::with_capacity(Vec2dCapacity { chart_capacity: ctx.below(most) as usize, indices_capacity: ctx.below(most / 2) as usize })
        }
    }
}

fn v01<T: Elem>(ctx: &mut Ctx) -> R {
    Tracked::reset();
    let mut sw = Swarm {
        iter_fail: *ctx.pick(&[0, 1, 3]),
        hint_lie: *ctx.pick(&[0, 1, 3]),
        clone_fail: *ctx.pick(&[0, 2, 5]),
        max_set: *ctx.pick(&[3, 8, 40]),
        ops: *ctx.pick(&[10, 30, 120]),
    };
    if ctx.below(400) == 399 {
        // A long life.
        ctx.probe("long-history");
        sw.ops = 1500;
    }
    ev!(ctx, "elem {}", T::NAME);
    let mut next_id = 0u32;
    let fresh = |n: &mut u32| {
        *n += 1;
        if std::mem::size_of::<T>() == 0 { 0 } else { *n }
    };
    let mut v: Vec2d<T> = new_container(ctx);
    let mut m = Model::default();
    check_equal(ctx, &v, &m, "creation")?;
    // A second one, to be cloned into and out of.
    let mut other: Vec2d<T> = Vec2d::new();
    let mut other_m = Model::default();
    bulk(ctx, &mut v, &mut m, &mut next_id)?;
    if m.total() > 1000 {
        sw.ops = 6;
    }
    let mut ops = 0;
    while ops < sw.ops && ctx.chance(sw.ops - 1, sw.ops) {
        ops += 1;
        let span = ctx.span_start();
        let op = ctx.weighted(&[8, 2, 5, 3, 2, 1, 2, 2, 1, 2, 1, 1, 1, 1]);
        let name: &str;
        match op {
            0 => {
                name = "push_item";
                let id = fresh(&mut next_id);
                v.push_item(T::make(id));
                m.open.push(id);
                ev!(ctx, "push {id}");
            }
            1 => {
                // Popping is only meaningful while the open set has items.
                if m.open.is_empty() {
                    ctx.span_end(span);
                    continue;
                }
                name = "pop_item";
                let got = v.pop_item().map(|x| x.id());
                let want = m.open.pop();
                ev!(ctx, "pop {got:?}");
                ensure!(got == want, "pop", "pop_item gave {got:?} expected {want:?}");
            }
            2 => {
                name = "next_set";
                v.next_set();
                let s = std::mem::take(&mut m.open);
                m.sealed.push(s);
                ev!(ctx, "seal");
            }
            3 => {
                name = "extend_with_set";
                let (it, ids, delivered) = flaky::<T>(ctx, &sw, &mut next_id);
                ev!(ctx, "extend_with_set {} items, fail at {:?}, hint {:?}", ids.len(), it.fail_at, it.hint);
                let must = it.fail_at.is_none();
                match guard(|| v.extend_with_set(it)) {
                    Outcome::Done(()) => {
                        // A container may stop asking early only at the end of the iterator.
                        ensure!(must || delivered.borrow().len() == ids.len(), "incomplete-extension", "extension succeeded without consuming everything");
                        m.open.extend_from_slice(&ids);
                        let s = std::mem::take(&mut m.open);
                        m.sealed.push(s);
                    }
                    Outcome::Injected(_) => {
                        ctx.fired("iterator-panic");
                        ctx.nontrivial = true;
                        let now = match observe(&v) {
                            Outcome::Done(n) => n,
                            _ => fail!("unreadable-after-interruption", "container unreadable after interrupted extend_with_set"),
                        };
                        let got = delivered.borrow().clone();
                        ensure!(interrupted_ok(&m, &[], &got, &now), "interrupted-extension",
                            "before {m:?}, iterator had delivered {got:?}, now {now:?}");
                        m = now;
                    }
                    Outcome::Panicked(p) => fail!("panic-in-extend", "{p}"),
                }
            }
            4 => {
                name = "extend";
                let n = ctx.below(4) as usize;
                let mut sets = vec![];
                let mut all_ids = vec![];
                let mut logs = vec![];
                let mut failed = vec![];
                for _ in 0..n {
                    let (it, ids, d) = flaky::<T>(ctx, &sw, &mut next_id);
                    failed.push(it.failed.clone());
                    sets.push(it);
                    all_ids.push(ids);
                    logs.push(d);
                }
                let outer_fail = if ctx.chance(sw.iter_fail, 8) { Some(ctx.below(n as u32 + 1) as usize) } else { None };
                ev!(ctx, "extend {} sets, outer fails at {outer_fail:?}, inner {:?}", n, sets.iter().map(|s| (s.items.len(), s.fail_at)).collect::<Vec<_>>());
                let from_iter = m == Model::default() && ctx.chance(1, 2);
                let mut given = 0;
                let lie = ctx.chance(sw.hint_lie, 8);
                let mut src = sets.into_iter();
                let outer = std::iter::from_fn(move || {
                    if outer_fail == Some(given) {
                        inject("outer-iterator-panic");
                    }
                    given += 1;
                    src.next()
                });
                let r = if from_iter {
                    if lie {
                        guard(|| outer.filter(|_| true).collect::<Vec2d<T>>()).map_into(&mut v)
                    } else {
                        guard(|| outer.collect::<Vec2d<T>>()).map_into(&mut v)
                    }
                } else {
                    guard(|| v.extend(outer))
                };
                match r {
                    Outcome::Done(()) => {
                        for ids in &all_ids {
                            m.open.extend_from_slice(ids);
                            let s = std::mem::take(&mut m.open);
                            m.sealed.push(s);
                        }
                    }
                    Outcome::Injected(k) => {
                        ctx.fired(if k == "iterator-panic" { "iterator-panic" } else { "outer-iterator-panic" });
                        ctx.nontrivial = true;
                        if !from_iter {
                            let now = match observe(&v) {
                                Outcome::Done(n) => n,
                                _ => fail!("unreadable-after-interruption", "container unreadable after interrupted extend"),
                            };
                            let mut full = vec![];
                            let mut partial = vec![];
                            for (i, d) in logs.iter().enumerate() {
                                let d = d.borrow();
                                // A set whose iterator failed, even after its last item, must not be sealed.
                                if d.len() == all_ids[i].len() && full.len() == i && !failed[i].get() {
                                    // Delivered completely; whether it was already sealed is decided below.
                                    full.push(d.clone());
                                } else if full.len() == i {
                                    partial = d.clone();
                                }
                            }
                            ensure!(interrupted_ok(&m, &full, &partial, &now), "interrupted-extension",
                                "before {m:?}, delivered {full:?} + {partial:?}, now {now:?}");
                            m = now;
                        }
                    }
                    Outcome::Panicked(p) => fail!("panic-in-extend", "{p}"),
                }
            }
            5 => {
                name = "clear";
                v.clear();
                m = Model::default();
                ev!(ctx, "clear");
            }
            6 => {
                name = "truncate";
                let n = ctx.below(m.sealed.len() as u32 + 1) as usize;
                let mut done = false;
                if let Outcome::Panicked(p) = guard(|| done = T::copy_truncate(&mut v, n)) {
                    fail!("panic-in-truncate", "truncate({n}) with {} sealed sets: {p}", m.sealed.len());
                }
                if done {
                    m.sealed.truncate(n);
                    ev!(ctx, "truncate {n}");
                    if !m.open.is_empty() {
                        ctx.probe("truncate-with-open-items");
                        ctx.nontrivial = true;
                    }
                }
            }
            7 => {
                name = "truncate_chart";
                let keep = ctx.below(m.open.len() as u32 + 1) as usize;
                let n = m.total() - m.open.len() + keep;
                v.truncate_chart(n);
                m.open.truncate(keep);
                ev!(ctx, "drop open items beyond {keep}");
            }
            8 => {
                name = "clone";
                let fail = ctx.chance(sw.clone_fail, 8) && m.total() > 0;
                if fail {
                    let at = ctx.below(m.total() as u32);
                    CLONES_LEFT.with(|c| c.set(at as i64));
                }
                let r = guard(|| v.clone());
                CLONES_LEFT.with(|c| c.set(-1));
                match r {
                    Outcome::Done(mut c) => {
                        check_equal(ctx, &c, &m, "clone")?;
                        // Diverge the clone; the original must not notice.
                        c.push_item(T::make(if std::mem::size_of::<T>() == 0 { 0 } else { 9_000_000 }));
                        c.next_set();
                        check_equal(ctx, &v, &m, "changing a clone")?;
                        if ctx.chance(1, 2) {
                            v.push_item(T::make(if std::mem::size_of::<T>() == 0 { 0 } else { 8_000_000 }));
                            std::mem::swap(&mut v, &mut c);
                            m.open.push(if std::mem::size_of::<T>() == 0 { 0 } else { 9_000_000 });
                            let s = std::mem::take(&mut m.open);
                            m.sealed.push(s);
                            ev!(ctx, "continue on clone");
                        } else {
                            ev!(ctx, "clone dropped");
                        }
                    }
                    Outcome::Injected(_) => {
                        ctx.fired("clone-panic");
                        ctx.nontrivial = true;
                        ev!(ctx, "clone failed");
                    }
                    Outcome::Panicked(p) => fail!("panic-in-clone", "{p}"),
                }
            }
            9 => {
                name = "last_mut";
                if !m.open.is_empty() {
                    let i = ctx.below(m.open.len() as u32) as usize;
                    let j = ctx.below(m.open.len() as u32) as usize;
                    let s = v.last_mut();
                    ensure!(s.len() == m.open.len(), "last-mut", "last_mut has {} items, expected {}", s.len(), m.open.len());
                    s.swap(i, j);
                    m.open.swap(i, j);
                    ev!(ctx, "swap {i} {j}");
                }
            }
            10 => {
                // Reading out of range must panic, not give foreign items.
                name = "out-of-range read";
                let n = m.sealed.len();
                let beyond = *ctx.pick(&[n, n, n + 1, n + 2, 2 * n + 1, usize::MAX]);
                if let Outcome::Done(len) = guard(|| v[beyond].len()) {
                    fail!("open-set-readable-as-sealed", "index {beyond} is readable ({len} items) with {n} sealed sets");
                }
                if beyond > n {
                    if let Outcome::Done(at) = guard(|| v.index_at(beyond)) {
                        fail!("start-of-no-set", "index_at({beyond}) is {at} with {n} sealed sets");
                    }
                }
                ev!(ctx, "out of range read at {beyond}");
            }
            11 => {
                name = "replace";
                v = new_container(ctx);
                m = Model::default();
                ev!(ctx, "new container");
            }
            12 => {
                name = "change to the other container";
                std::mem::swap(&mut v, &mut other);
                std::mem::swap(&mut m, &mut other_m);
                ev!(ctx, "change to the other container");
            }
            _ => {
                name = "clone_from";
                let fail = ctx.chance(sw.clone_fail, 8) && other_m.total() > 0;
                if fail {
                    let at = ctx.below(other_m.total() as u32);
                    CLONES_LEFT.with(|c| c.set(at as i64));
                }
                let r = guard(|| v.clone_from(&other));
                CLONES_LEFT.with(|c| c.set(-1));
                match r {
                    Outcome::Done(()) => {
                        m = other_m.clone();
                        ev!(ctx, "overwritten by the other container");
                    }
                    Outcome::Injected(_) => {
                        // Nothing was copied completely: nothing may have changed.
                        ctx.fired("clone-from-panic");
                        ctx.nontrivial = true;
                        ev!(ctx, "overwriting failed");
                    }
                    Outcome::Panicked(p) => fail!("panic-in-clone", "{p}"),
                }
            }
        }
        check_equal(ctx, &v, &m, name)?;
        if op >= 12 {
            check_equal(ctx, &other, &other_m, name)?;
        }
        if T::NAME == "tracked" {
            let total = m.total() + other_m.total();
            ensure!(Tracked::live() == total, "leak", "after {name}: {} live items but the containers hold {total}", Tracked::live());
        }
        ctx.span_end(span);
    }
    drop(v);
    drop(other);
    if T::NAME == "tracked" {
        ensure!(Tracked::live() == 0, "leak", "{} items leaked", Tracked::live());
        ensure!(BAD_DROP.with(|b| b.get()) == 0, "double-drop", "an item was dropped twice");
    }
    ev!(ctx, "end {} ops {} sets {} open", ops, m.sealed.len(), m.open.len());
    Ok(())
}

trait MapInto<T> {
    fn map_into(self, v: &mut Vec2d<T>) -> Outcome<()>;
}
impl<T> MapInto<T> for Outcome<Vec2d<T>> {
    fn map_into(self, v: &mut Vec2d<T>) -> Outcome<()> {
        match self {
            Outcome::Done(x) => {
                *v = x;
                Outcome::Done(())
            }
            Outcome::Injected(k) => Outcome::Injected(k),
            Outcome::Panicked(p) => Outcome::Panicked(p),
        }
    }
}

fn v01_main(ctx: &mut Ctx) -> R {
    match ctx.below(4) {
        0 => v01::<u32>(ctx),
        1 => v01::<Tracked>(ctx),
        2 => v01::<Wide>(ctx),
        _ => v01::<Unit>(ctx),
    }
}

// ------------------------------------------------------------------ V02

#[derive(Clone, Copy, PartialEq, Debug, serde::Serialize, serde::Deserialize, miniserde::Serialize, miniserde::Deserialize)]
struct Rec {
    a: u32,
    b: Option<u32>,
    c: bool,
}
impl Elem for Rec {
    const NAME: &'static str = "rec";
    fn make(id: u32) -> Self {
        Rec { a: id, b: if id % 3 == 0 { None } else { Some(id ^ 0xFFFF_0000) }, c: id % 2 == 1 }
    }
    fn id(&self) -> u32 {
        if *self == Rec::make(self.a) { self.a } else { u32::MAX }
    }
    fn copy_truncate(v: &mut Vec2d<Self>, n: usize) -> bool {
        v.truncate(n);
        true
    }
}

/// Text with everything that needs escaping.
#[derive(Clone, PartialEq, Debug, serde::Serialize, serde::Deserialize, miniserde::Serialize, miniserde::Deserialize)]
struct Text {
    text: String,
    list: Vec<u32>,
}
impl Elem for Text {
    const NAME: &'static str = "text";
    fn make(id: u32) -> Self {
        let bits = ["\"", "]", "}", "\\", "\n", ",", "é", "", "null", "[0]"];
        let text = format!("{id}:{}{}", bits[id as usize % 10], bits[id as usize / 10 % 10]);
        Text { text, list: (0..id % 4).collect() }
    }
    fn id(&self) -> u32 {
        let id = self.text.split(':').next().and_then(|t| t.parse().ok()).unwrap_or(u32::MAX);
        if *self == Text::make(id) { id } else { u32::MAX }
    }
    fn copy_truncate(_: &mut Vec2d<Self>, _: usize) -> bool {
        false
    }
}
impl Elem for () {
    const NAME: &'static str = "nothing";
    fn make(_: u32) -> Self {}
    fn id(&self) -> u32 {
        0
    }
    fn copy_truncate(v: &mut Vec2d<Self>, n: usize) -> bool {
        v.truncate(n);
        true
    }
}

trait Stored: Elem + serde::Serialize + serde::de::DeserializeOwned + miniserde::Serialize + miniserde::Deserialize {}
impl<T: Elem + serde::Serialize + serde::de::DeserializeOwned + miniserde::Serialize + miniserde::Deserialize> Stored for T {}

fn apply<T: Elem>(ctx: &mut Ctx, v: &mut Vec2d<T>, m: &mut Model, next: &mut u32) -> R {
    let own = |id: u32| if std::mem::size_of::<T>() == 0 { 0 } else { id };
    match ctx.weighted(&[6, 4, 2, 2, 1, 1, 1]) {
        6 => {
            if !m.open.is_empty() {
                let got = v.pop_item().map(|x| x.id());
                let want = m.open.pop();
                ensure!(got == want, "pop", "pop_item gave {got:?} expected {want:?}");
            }
        }
        0 => {
            *next += 1 + ctx.below(3) * 1000;
            v.push_item(T::make(*next));
            m.open.push(own(*next));
        }
        1 => {
            v.next_set();
            let s = std::mem::take(&mut m.open);
            m.sealed.push(s);
        }
        2 => {
            let n = ctx.below(m.sealed.len() as u32 + 1) as usize;
            if no_panic("truncate", || T::copy_truncate(v, n))? {
                m.sealed.truncate(n);
            }
        }
        3 => {
            let k = ctx.below(m.open.len() as u32 + 1) as usize;
            v.truncate_chart(m.total() - m.open.len() + k);
            m.open.truncate(k);
        }
        4 => {
            let n = ctx.below(30);
            let ids: Vec<u32> = (0..n).map(|i| *next + i + 1).collect();
            *next += n;
            v.extend_with_set(ids.iter().map(|&i| T::make(i)));
            m.open.extend(ids.iter().map(|&i| own(i)));
            let s = std::mem::take(&mut m.open);
            m.sealed.push(s);
        }
        _ => {
            v.clear();
            *m = Model::default();
        }
    }
    Ok(())
}

enum Disk {
    /// The complete write reached the disk.
    Durable,
    /// Only a prefix reached it.
    Torn(usize),
    /// Nothing reached it; the older image is still there.
    Lost,
}

#[derive(Clone, Copy, Debug)]
enum Codec {
    Mini,
    Json,
    /// The same by way of a tree of values, laid out for people, read piece by piece.
    Pretty,
    /// Without field names: everything is where it is.
    Binary,
}

/// A file that is read a few bytes at a time.
struct Piecemeal<'a>(&'a [u8]);
impl std::io::Read for Piecemeal<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(buf.len()).min(3);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn v02_main(ctx: &mut Ctx) -> R {
    match ctx.below(8) {
        0..=3 => v02::<Rec>(ctx),
        4 => v02::<u32>(ctx),
        5 => v02::<()>(ctx),
        _ => v02::<Text>(ctx),
    }
}

fn v02<T: Stored>(ctx: &mut Ctx) -> R {
    let codec = match ctx.below(8) {
        0 => Codec::Json,
        1 => Codec::Pretty,
        2 | 3 => Codec::Binary,
        _ => Codec::Mini,
    };
    let fault_rate = *ctx.pick(&[0, 2, 5]);
    let mut rounds = 1 + ctx.below(5);
    ev!(ctx, "codec {codec:?} items {}", T::NAME);
    let enc = |v: &Vec2d<T>| -> Vec<u8> {
        match codec {
            Codec::Mini => miniserde::json::to_string(v).into_bytes(),
            Codec::Json => serde_json::to_vec(v).unwrap(),
            Codec::Pretty => serde_json::to_vec_pretty(&serde_json::to_value(v).unwrap()).unwrap(),
            Codec::Binary => bincode::serialize(v).unwrap(),
        }
    };
    let dec = |s: &[u8]| -> Outcome<Option<Vec2d<T>>> {
        guard(|| match codec {
            // What is no text any more is refused by the reader of the file.
            Codec::Mini => std::str::from_utf8(s).ok().and_then(|s| miniserde::json::from_str(s).ok()),
            Codec::Json => serde_json::from_slice(s).ok(),
            Codec::Pretty => serde_json::from_reader::<_, serde_json::Value>(Piecemeal(s)).ok().and_then(|x| serde_json::from_value(x).ok()),
            Codec::Binary => bincode::deserialize(s).ok(),
        })
    };
    let shown = |image: &[u8]| String::from_utf8_lossy(&image[..image.len().min(300)]).into_owned();
    let mut v: Vec2d<T> = new_container(ctx);
    let mut m = Model::default();
    let mut next = 0;
    bulk(ctx, &mut v, &mut m, &mut next)?;
    if m.total() > 1000 {
        rounds = 1;
    }
    // Durable image and the state that it must restore to.
    let mut disk: Option<(Vec<u8>, Model)> = None;
    let mut last_good: Option<(Vec<u8>, Model)> = None;
    for _ in 0..rounds {
        let span = ctx.span_start();
        while ctx.chance(7, 8) {
            apply(ctx, &mut v, &mut m, &mut next)?;
            check_equal(ctx, &v, &m, "operation")?;
        }
        // Checkpoint.
        let image = no_panic("serialise", || enc(&v))?;
        ctx.step();
        let fate = if ctx.chance(fault_rate, 8) {
            if ctx.chance(1, 3) { Disk::Lost } else { Disk::Torn(ctx.below(image.len() as u32) as usize) }
        } else {
            Disk::Durable
        };
        match fate {
            Disk::Durable => {
                disk = Some((image.clone(), m.clone()));
                last_good = disk.clone();
                ev!(ctx, "checkpoint {} bytes durable", image.len());
            }
            Disk::Lost => {
                ctx.fired("lost-write");
                ev!(ctx, "checkpoint lost");
            }
            Disk::Torn(k) => {
                ctx.fired("torn-write");
                ctx.nontrivial = true;
                ev!(ctx, "checkpoint torn at {k}/{}", image.len());
                // The reader sees the torn image first and has to refuse it.
                match dec(&image[..k]) {
                    Outcome::Done(None) => {}
                    Outcome::Done(Some(c)) => fail!("torn-image-accepted", "a {k}-byte prefix of a {}-byte image restored to {} sets", image.len(), c.len()),
                    Outcome::Injected(_) => unreachable!(),
                    Outcome::Panicked(p) => fail!("torn-image-panics", "{p}"),
                }
                disk = last_good.clone();
            }
        }
        // Crash: memory is gone, or the process goes on.
        if ctx.chance(1, 2) {
            ctx.fired("crash-restart");
            if let Some((image, state)) = &disk {
                let restored = match dec(image) {
                    Outcome::Done(Some(c)) => c,
                    Outcome::Done(None) => fail!("good-image-refused", "a completely written image was refused: {}", shown(image)),
                    Outcome::Injected(_) => unreachable!(),
                    Outcome::Panicked(p) => fail!("good-image-panics", "{p}"),
                };
                check_equal(ctx, &restored, state, "restore")?;
                let again = no_panic("serialise", || enc(&restored))?;
                ensure!(&again == image, "image-not-stable", "saving a restored container gives another image");
                v = restored;
                m = state.clone();
                ctx.nontrivial = true;
            } else {
                v = new_container(ctx);
                m = Model::default();
            }
            ev!(ctx, "restart with {} sets", m.sealed.len());
        }
        ctx.span_end(span);
    }
    while ctx.chance(5, 6) {
        apply(ctx, &mut v, &mut m, &mut next)?;
        check_equal(ctx, &v, &m, "operation after restore")?;
    }
    ev!(ctx, "end {:?}", m.sealed.len());
    Ok(())
}

fn main() {
    simcore::main(&[
        Prop {
            id: "V01",
            scenario: v01_main,
            rule: "seeded histories of 0-120 container operations over four item types; non-trivial: a caller iterator or clone failed midway, or sets were truncated with open items kept",
            real: &["gearley-vec2d (all code)"],
            stubs: &["caller iterators and item types are simulator-owned"],
            assumptions: &[
                "popping or cutting the flat array into already sealed sets is a precondition violation and is not generated",
                "allocation failure aborts the process by design of the standard library and is not injected",
            ],
            step_unit: "container operations followed by a full comparison",
            quick_secs: 15,
            thorough_secs: 300,
            quick_max_runs: 0,
            must_hit: &["iterator-panic", "outer-iterator-panic", "clone-panic", "clone-from-panic", "size-hint-lie", "goes-on-after-its-end", "truncate-with-open-items", "big-container", "big-open-set", "long-history"],
        },
        Prop {
            id: "V02",
            scenario: v02_main,
            rule: "seeded histories with 1-5 checkpoints, each durable, lost or torn at a byte, followed by a crash and restart or not; non-trivial: a torn image was read or a restored container was used",
            real: &["gearley-vec2d (all code, both derived serialisations)", "miniserde", "serde_json", "bincode"],
            stubs: &["disk (an in-memory image with torn and lost writes)"],
            assumptions: &[
                "an image is refused only when it is cut short; bits flipped inside an image are not detected by the format and not part of the property",
            ],
            step_unit: "container operations and checkpoints",
            quick_secs: 15,
            thorough_secs: 300,
            quick_max_runs: 0,
            must_hit: &["torn-write", "lost-write", "crash-restart", "big-container"],
        },
    ]);
}
