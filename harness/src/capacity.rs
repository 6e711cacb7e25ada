//! P20: long histories around the bounds of the tables.
use crate::gen::*;
use crate::sim::*;
use crate::wire::DAY;
use proptest::collection::vec;
use proptest::prelude::*;

fn base() -> Profile {
    Profile { dep: 24, ext: 14, slash: 6, claim: 6, dist: 16, daily: 2, close: 1, open: 1, invalid: 5, ..Profile::default() }
}

fn fill(amt: u64, days: i16) -> Op {
    Op::Fill { p: 0, amt: Amt::N(amt), days, sec: 0, src: 0 }
}

fn ops(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Op>> {
    vec(op(&base()), n).boxed()
}

fn run_of(n: std::ops::Range<u16>, rotate: bool, dist: BoxedStrategy<bool>) -> BoxedStrategy<Op> {
    (0u8..12, n, 1u32..1_000_000, prop_oneof![3 => 1u8..4, 1 => 4u8..8], dist)
        .prop_map(move |(u, n, amt, lock, dist)| Op::DailyDeposit {
            p: 0,
            u: if rotate { 128 + u } else { u },
            n,
            amt,
            lock,
            dist,
        })
        .boxed()
}

fn few() -> Profile {
    Profile { users: (1, 3), ..base() }
}

fn secs() -> BoxedStrategy<u32> {
    prop_oneof![Just(0u32), Just(DAY as u32 - 1), 0u32..DAY as u32].boxed()
}

/// One staker's pending dates.
pub fn staker() -> BoxedStrategy<Case> {
    (
        cfg(&few()),
        run_of(40..64, false, any::<bool>().boxed()),
        ops(1..6),
        run_of(1..20, false, any::<bool>().boxed()),
        ops(2..10),
        vec(any::<u32>(), 2),
    )
        .prop_map(|(cfg, a, mut b, c, mut d, x)| {
            let mut ops = vec![fill(1 << 40, 300), a];
            ops.append(&mut b);
            ops.push(c);
            ops.append(&mut d);
            Case { cfg, ops, x }
        })
        .boxed()
}

/// The pool's pending dates, with and without distributions in between.
fn pool() -> BoxedStrategy<Case> {
    let many = Profile { users: (7, 11), ..base() };
    (
        cfg(&many),
        ops(0..4),
        run_of(330..520, true, prop_oneof![3 => Just(false), 1 => Just(true)].boxed()),
        ops(2..12),
        prop_oneof![
            2 => Just(None),
            1 => run_of(10..400, true, any::<bool>().boxed()).prop_map(Some),
        ],
        ops(1..8),
        vec(any::<u32>(), 2),
    )
        .prop_map(|(cfg, mut a, b, mut c, d, mut e, x)| {
            let mut ops = vec![];
            ops.append(&mut a);
            ops.push(b);
            ops.append(&mut c);
            ops.extend(d);
            ops.append(&mut e);
            Case { cfg, ops, x }
        })
        .boxed()
}

/// Distribution days.
pub fn days(n: BoxedStrategy<u16>) -> BoxedStrategy<Case> {
    (
        cfg(&few()),
        ops(1..5),
        (n, secs()),
        ops(1..8),
        (0u16..20, secs()),
        ops(0..5),
        vec(any::<u32>(), 2),
    )
        .prop_map(|(cfg, mut a, (n, s), mut b, (k, t), mut c, x)| {
            let mut ops = vec![
                Op::Deposit { p: 0, u: 0, amt: Amt::N(1000), lock: 1, del: 0 },
                fill(1 << 44, 1200),
            ];
            ops.append(&mut a);
            // whatever the operations did, somebody has a stake
            ops.push(Op::Deposit { p: 0, u: 0, amt: Amt::N(1000), lock: 1, del: 0 });
            ops.push(Op::Daily { p: 0, n, sec: s });
            ops.append(&mut b);
            ops.push(Op::Daily { p: 0, n: k, sec: t });
            ops.append(&mut c);
            Case { cfg, ops, x }
        })
        .boxed()
}

/// Anything in between.
fn mix() -> BoxedStrategy<Case> {
    (
        cfg(&few()),
        vec(
            prop_oneof![
                4 => op(&base()),
                1 => run_of(1..70, false, any::<bool>().boxed()),
                1 => (1u16..80, 0u32..DAY as u32).prop_map(|(n, sec)| Op::Daily { p: 0, n, sec }),
            ],
            4..18,
        ),
        vec(any::<u32>(), 2),
    )
        .prop_map(|(cfg, ops, x)| Case { cfg, ops, x })
        .boxed()
}

pub fn strategy() -> BoxedStrategy<Case> {
    let n = prop_oneof![1 => 1000u16..1110, 2 => 1080u16..1100].boxed();
    prop_oneof![4 => staker(), 3 => pool(), 2 => days(n), 3 => mix()].boxed()
}

pub fn run(sim: &mut Sim, case: &Case, out: &mut Out) {
    crate::checks::history(sim, case, out);
    let n = sim.stats.get("expiries") + sim.stats.get("ok_distribute");
    sim.stats.add("cycled", n);
}
