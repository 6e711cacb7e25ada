//! proptest strategies for histories.
use crate::sim::*;
use crate::wire::DAY;
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug)]
pub struct Profile {
    pub dep: u32,
    pub wd: u32,
    pub ext: u32,
    pub chg: u32,
    pub slash: u32,
    pub pen: u32,
    pub claim: u32,
    pub dist: u32,
    pub fill: u32,
    pub close: u32,
    pub open: u32,
    pub donate: u32,
    pub adv: u32,
    pub daily: u32,
    /// several deposits on consecutive days
    pub burst: u32,
    pub min_ops: usize,
    pub max_ops: usize,
    pub users: (u8, u8),
    pub pools: (usize, usize),
    /// percent of deposits with a delegate
    pub delegates: u32,
    /// percent of operations made invalid on purpose
    pub invalid: u32,
    /// lockup codes that do not exist
    pub odd_locks: bool,
    /// full 64-bit amounts
    pub extreme: bool,
    pub words: usize,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            dep: 20,
            wd: 8,
            ext: 8,
            chg: 6,
            slash: 4,
            pen: 3,
            claim: 8,
            dist: 22,
            fill: 6,
            close: 2,
            open: 2,
            donate: 1,
            adv: 30,
            daily: 1,
            burst: 1,
            min_ops: 4,
            max_ops: 22,
            users: (2, 4),
            pools: (1, 1),
            delegates: 35,
            invalid: 8,
            odd_locks: false,
            extreme: false,
            words: 2,
        }
    }
}

fn log_u64(max_bits: u32) -> impl Strategy<Value = u64> {
    (1..=max_bits, any::<u64>()).prop_map(|(b, x)| {
        let hi = 1u64 << (b - 1);
        hi | (x & (hi - 1))
    })
}

/// The numbers written in the program's source, and their neighbours: what a
/// condition may compare amounts with.
fn dict() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut found = std::collections::BTreeSet::from([u8::MAX as u64, u16::MAX as u64, u32::MAX as u64, DAY]);
        let mut dirs = vec![std::path::PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/programs/rewards/src"))];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let f = e.path();
                if f.is_dir() {
                    dirs.push(f);
                } else if let Ok(text) = std::fs::read_to_string(&f) {
                    for w in text.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                        let w: String = w.chars().filter(|c| *c != '_').collect();
                        let digits: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
                        let n = match w.strip_prefix("0x") {
                            Some(h) => u64::from_str_radix(h, 16).ok(),
                            None => digits.parse().ok(),
                        };
                        found.extend(n.filter(|n| *n > 1 && *n < 1 << 58));
                    }
                }
            }
        }
        let all: std::collections::BTreeSet<u64> =
            found.into_iter().flat_map(|n| [n - 1, n, n.saturating_add(1)]).collect();
        all.into_iter().collect()
    })
}

fn from_dict() -> BoxedStrategy<Amt> {
    proptest::sample::select(dict()).prop_map(Amt::N).boxed()
}

fn extreme_amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        2 => (0u8..=64, -2i8..=2).prop_map(|(b, o)| Amt::Edge(b, o)),
        2 => (prop_oneof![Just(1u8), Just(2), Just(4), Just(6), Just(5), Just(12)], -3i8..=3).prop_map(|(m, o)| Amt::Limit(m, o)),
        2 => any::<u16>().prop_map(Amt::Frac),
        2 => log_u64(64).prop_map(Amt::N),
        1 => Just(Amt::All),
        1 => (0u64..4).prop_map(Amt::N),
        1 => (1u64..3).prop_map(Amt::Over),
        1 => any::<u64>().prop_map(Amt::N),
        1 => from_dict(),
    ]
    .boxed()
}

/// An absolute amount.
pub fn amount(pr: &Profile) -> BoxedStrategy<Amt> {
    if pr.extreme {
        return extreme_amt();
    }
    prop_oneof![
        3 => (1u64..200).prop_map(Amt::N),
        3 => log_u64(40).prop_map(Amt::N),
        2 => log_u64(52).prop_map(Amt::N),
        1 => log_u64(58).prop_map(Amt::N),
        3 => Just(Amt::N(1_000_000)),
        1 => from_dict(),
    ]
    .boxed()
}

/// A part of the stake or weight at hand.
pub fn part(pr: &Profile) -> BoxedStrategy<Amt> {
    if pr.extreme {
        return extreme_amt();
    }
    let inv = pr.invalid;
    prop_oneof![
        (100 - inv) / 2 => any::<u16>().prop_map(Amt::Frac),
        (100 - inv) / 2 => Just(Amt::All),
        5 => (0u64..3).prop_map(Amt::N),
        3 => from_dict(),
        inv => prop_oneof![(1u64..3).prop_map(Amt::Over), log_u64(40).prop_map(Amt::Over)],
    ]
    .boxed()
}

fn tweak(pr: &Profile) -> BoxedStrategy<u8> {
    prop_oneof![(100 - pr.invalid) => 0u8..200, pr.invalid => 200u8..=255].boxed()
}

fn secs() -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(0u32), 1 => Just(1u32), 1 => Just(DAY as u32 - 1), 4 => 0u32..DAY as u32].boxed()
}

pub fn adv() -> BoxedStrategy<Adv> {
    // round and notable durations
    let d = DAY as i64;
    let exact = prop_oneof![
        4 => (1i64..4, -1i64..=1).prop_map(move |(n, o)| n * d + o),
        2 => (prop_oneof![Just(1i64), Just(60), Just(3600), Just(12 * 3600), Just(7 * d), Just(30 * d), Just(90 * d), Just(180 * d), Just(365 * d)], -1i64..=1)
            .prop_map(|(n, o)| (n + o).max(1)),
        1 => proptest::sample::select(dict()).prop_map(|n| n.min(400 * DAY) as i64),
    ]
    .prop_map(|n| Adv::Secs(n as u32));
    prop_oneof![
        24 => (1u32..2 * DAY as u32).prop_map(Adv::Secs),
        8 => exact,
        // years without a touch
        1 => (prop_oneof![400u16..1500, 1500u16..20_000], secs()).prop_map(|(d, s)| Adv::Day(d, s)),
        48 => (1u16..4, secs()).prop_map(|(d, s)| Adv::Day(d, s)),
        24 => (1u16..400, secs()).prop_map(|(d, s)| Adv::Day(d, s)),
        48 => (prop_oneof![4 => 0u8..6, 1 => 0u8..40], prop_oneof![Just(-1i32), Just(0), Just(1), 0i32..DAY as i32, -(DAY as i32)..0])
            .prop_map(|(k, o)| Adv::Expiry(k, o)),
        8 => (-3i32..3).prop_map(|d| Adv::Ends(d * DAY as i32 / 2)),
    ]
    .boxed()
}

pub fn fill_days() -> BoxedStrategy<i16> {
    prop_oneof![6 => 0i16..40, 2 => 0i16..500, 1 => -3i16..0, 1 => -500i16..-3, 1 => Just(0i16)].boxed()
}

/// A power of two of seconds or days ahead, or the largest numbers.
fn far_days() -> BoxedStrategy<i16> {
    prop_oneof![3 => FAR..FAR + 64, 3 => FAR + 64..FAR + 64 + 47, 1 => Just(i16::MAX)].boxed()
}

fn lock() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(1u8), 3 => Just(2u8), 2 => Just(3u8), 3 => Just(4u8)].boxed()
}

pub fn op(pr: &Profile) -> BoxedStrategy<Op> {
    let np = pr.pools.1 as u8;
    let p = move || 0u8..np;
    let u = || 0u8..12;
    let bad_lock = if pr.invalid > 0 { 1 } else { 0 };
    let odd = pr.odd_locks;
    let bad = || if odd { prop_oneof![Just(0u8), Just(5u8), 5u8..=255].boxed() } else { Just(0u8).boxed() };
    let del_s = prop_oneof![pr.delegates => 128u8..=255, (100 - pr.delegates) => Just(0u8)].boxed();
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (
            pr.dep,
            (p(), u(), amount(pr), prop_oneof![60 => lock(), bad_lock => bad()], del_s)
                .prop_map(|(p, u, amt, lock, del)| Op::Deposit { p, u, amt, lock, del })
                .boxed(),
        ),
        (pr.wd, (p(), u(), any::<u8>(), part(pr)).prop_map(|(p, u, s, amt)| Op::Withdraw { p, u, s, amt }).boxed()),
        (
            pr.ext,
            (
                p(),
                u(),
                any::<u8>(),
                prop_oneof![60 => lock(), bad_lock => bad()],
                prop_oneof![1 => Just(Amt::N(0)), 1 => amount(pr)],
                tweak(pr),
            )
                .prop_map(|(p, u, s, new, add, tweak)| Op::Extend { p, u, s, new, add, tweak })
                .boxed(),
        ),
        (
            pr.chg,
            (p(), u(), any::<u8>(), any::<u8>(), tweak(pr))
                .prop_map(|(p, u, s, new, tweak)| Op::Change { p, u, s, new, tweak })
                .boxed(),
        ),
        (
            pr.slash,
            (p(), u(), any::<u8>(), part(pr), tweak(pr))
                .prop_map(|(p, u, s, amt, tweak)| Op::Slash { p, u, s, amt, tweak })
                .boxed(),
        ),
        (pr.pen, (p(), u(), prop_oneof![3 => part(pr), 1 => (1u8..5, -1i8..=1).prop_map(|(k, o)| Amt::Last(k, o))]).prop_map(|(p, u, amt)| Op::Penalty { p, u, amt }).boxed()),
        (
            pr.claim,
            (p(), u(), prop_oneof![(100 - pr.invalid) => 0u8..211, pr.invalid => 211u8..=255])
                .prop_map(|(p, u, dest)| Op::Claim { p, u, dest })
                .boxed(),
        ),
        (pr.dist, p().prop_map(|p| Op::Distribute { p }).boxed()),
        (
            pr.fill,
            (
                p(),
                if pr.extreme {
                    extreme_amt()
                } else {
                    prop_oneof![6 => log_u64(50).prop_map(Amt::N), 3 => Just(Amt::N(1_000_000_000)), 1 => (0u64..40).prop_map(Amt::N), 1 => from_dict()].boxed()
                },
                if pr.extreme { prop_oneof![3 => fill_days(), 1 => far_days()].boxed() } else { prop_oneof![40 => fill_days(), 1 => far_days()].boxed() },
                secs(),
                prop_oneof![(100 - pr.invalid) => 0u8..200, pr.invalid => 200u8..=255],
            )
                .prop_map(|(p, amt, days, sec, src)| Op::Fill { p, amt, days, sec, src })
                .boxed(),
        ),
        (
            pr.close,
            (p(), u(), any::<u8>()).prop_map(|(p, u, target)| Op::Close { p, u, target }).boxed(),
        ),
        (pr.open, (p(), u(), 0u8..5).prop_map(|(p, u, prefund)| Op::Open { p, u, prefund }).boxed()),
        (pr.donate, (p(), 1u32..1_000_000).prop_map(|(p, amt)| Op::Donate { p, amt }).boxed()),
        (pr.adv, adv().prop_map(Op::Advance).boxed()),
        (
            pr.burst,
            (p(), prop_oneof![2 => 0u8..12, 1 => 128u8..140], 3u16..24, 1u32..1_000_000, 0u8..8, any::<bool>())
                .prop_map(|(p, u, n, amt, lock, dist)| Op::DailyDeposit { p, u, n, amt, lock, dist })
                .boxed(),
        ),
        (pr.daily, (p(), prop_oneof![7 => 1u16..12, 1 => 12u16..130], secs()).prop_map(|(p, n, sec)| Op::Daily { p, n, sec }).boxed()),
    ];
    v.retain(|(w, _)| *w > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn cfg(pr: &Profile) -> BoxedStrategy<Cfg> {
    let users = pr.users.0..=pr.users.1;
    let pools = vec(
        (prop_oneof![2 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)], 0u8..2).prop_map(|(auth, mint)| PoolCfg { auth, mint }),
        pr.pools.0..=pr.pools.1,
    );
    (
        0u16..64,
        prop_oneof![
            3 => (19_000u64..21_000, 0u64..DAY).prop_map(|(d, s)| d * DAY + s),
            2 => (19_000u64..21_000).prop_map(|d| d * DAY),
            1 => (1u64..2000, 0u64..DAY).prop_map(|(d, s)| d * DAY + s),
            // around 2^31 and 2^32 seconds
            1 => (prop_oneof![Just(24_855u64), Just(49_710)], 0u64..500, 0u64..DAY).prop_map(|(d, b, s)| (d - b) * DAY + s),
        ],
        pools,
        users,
        prop_oneof![5 => Just(16u8), 1 => 0u8..3],
    )
        .prop_map(|(salt, t0, pools, users, open)| Cfg { salt, t0, pools, users, open })
        .boxed()
}

/// Swarm: half of the cases follow the profile, the others one of sixteen fixed variants of it, in
/// which kinds of operations are left out or made frequent, and histories are long, or with few or
/// many stakers.
pub fn case(pr: &Profile) -> BoxedStrategy<Case> {
    let mut all = vec![(16u32, plain_case(pr))];
    for i in 0..16u32 {
        all.push((1, plain_case(&variant(pr, i))));
    }
    proptest::strategy::Union::new_weighted(all).boxed()
}

fn variant(pr: &Profile, i: u32) -> Profile {
    let mut x = 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(i as u64 + 1);
    let mut next = || {
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 33
    };
    let mut v = pr.clone();
    for w in [&mut v.wd, &mut v.ext, &mut v.chg, &mut v.slash, &mut v.pen, &mut v.claim, &mut v.dist, &mut v.fill, &mut v.close, &mut v.open, &mut v.donate, &mut v.daily, &mut v.burst] {
        *w = match next() % 6 {
            0 | 1 => 0,
            2 | 3 => *w,
            _ => *w * 4,
        };
    }
    v.adv = match next() % 3 {
        0 => v.adv / 3 + 1,
        1 => v.adv,
        _ => v.adv * 2,
    };
    v.delegates = [v.delegates, v.delegates, 0, 95][next() as usize % 4];
    let (lo, hi) = v.users;
    v.users = [(lo, hi), (lo, lo), (hi, hi + 2)][next() as usize % 3];
    v.max_ops = match next() % 4 {
        0 => v.max_ops / 2 + 1,
        1 => v.max_ops * 3,
        _ => v.max_ops,
    };
    v.min_ops = v.min_ops.min(v.max_ops);
    v
}

pub fn plain_case(pr: &Profile) -> BoxedStrategy<Case> {
    let pre = {
        let mut seed = pr.clone();
        seed.invalid = 0;
        let dep = Profile { wd: 0, ext: 0, chg: 0, slash: 0, pen: 0, claim: 0, dist: 0, fill: 0, close: 0, open: 0, donate: 0, adv: 0, daily: 0, burst: 0, dep: 1, ..seed.clone() };
        let fill = Profile { dep: 0, fill: 1, ..dep.clone() };
        let o = prop_oneof![3 => op(&dep), 2 => op(&fill)];
        vec(o, 0..5)
    };
    (cfg(pr), pre, vec(op(pr), pr.min_ops..=pr.max_ops), vec(any::<u32>(), pr.words))
        .prop_map(|(cfg, mut pre, ops, x)| {
            pre.extend(ops);
            Case { cfg, ops: pre, x }
        })
        .boxed()
}
