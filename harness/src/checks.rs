//! One check per property: which histories to generate, how to run them and
//! which disagreements count.
use crate::gen::*;
use crate::sim::*;
use proptest::prelude::*;

pub const ALL: [&str; 23] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16",
    "P17", "P18", "P19", "P20", "P21", "P22", "P23",
];

#[derive(Default)]
pub struct Outcome {
    pub fail: Option<String>,
    /// disagreements that other properties' checks report
    pub foreign: bool,
    pub nontrivial: bool,
    pub stats: Stats,
    pub trace: Vec<String>,
}

pub fn profile(id: &str) -> Profile {
    let d = Profile::default();
    match id {
        "P02" => Profile { dist: 32, claim: 14, adv: 34, users: (2, 5), ..d },
        "P03" => Profile { claim: 14, close: 0, open: 1, invalid: 2, ..d },
        "P04" => Profile { odd_locks: true, dep: 26, wd: 12, ext: 4, claim: 4, adv: 40, dist: 14, ..d },
        "P05" => Profile { ext: 12, slash: 8, pen: 6, chg: 8, dist: 14, claim: 3, ..d },
        "P06" => Profile { delegates: 75, chg: 18, ext: 10, wd: 12, slash: 1, pen: 1, users: (2, 5), ..d },
        "P07" => Profile { odd_locks: true, dep: 26, ext: 20, pen: 1, slash: 2, adv: 30, ..d },
        "P08" => Profile { fill: 16, dist: 36, adv: 40, daily: 8, dep: 10, wd: 4, ext: 2, chg: 1, slash: 1, pen: 1, users: (1, 3), ..d },
        "P09" => Profile { fill: 50, dist: 16, adv: 24, dep: 8, wd: 2, ext: 1, chg: 1, slash: 1, pen: 1, claim: 6, donate: 2, invalid: 30, pools: (1, 2), users: (1, 3), ..d },
        "P10" | "P11" | "P18" => Profile { invalid: 0, pools: (2, 3), min_ops: 3, max_ops: 12, close: 4, words: 24, users: (2, 3), dep: 16, adv: 14, ..d },
        "P12" => Profile { claim: 30, dist: 24, invalid: 15, pools: (1, 2), ..d },
        "P13" => Profile { slash: 28, dep: 26, pen: 0, ext: 4, invalid: 15, ..d },
        "P14" => Profile { pen: 26, dep: 26, slash: 2, ext: 4, claim: 4, invalid: 12, ..d },
        "P15" => Profile { close: 24, open: 14, claim: 14, chg: 6, users: (2, 3), ..d },
        "P23" => Profile { pools: (1, 3), users: (2, 4), min_ops: 3, max_ops: 20, words: 24, dep: 20, claim: 12, dist: 24, adv: 30, close: 6, ..d },
        "P16" => Profile { open: 40, close: 14, dep: 8, pools: (1, 2), max_ops: 14, words: 12, ..d },
        "P19" => Profile { extreme: true, invalid: 20, dep: 30, fill: 12, slash: 10, pen: 10, ext: 14, chg: 10, wd: 14, min_ops: 3, max_ops: 14, ..d },
        "P21" => Profile { invalid: 0, users: (3, 5), pools: (1, 2), delegates: 45, close: 3, ext: 14, slash: 8, ..d },
        _ => d,
    }
}

pub fn strategy(id: &str) -> BoxedStrategy<Case> {
    match id {
        "P17" | "P22" => crate::clients::strategy(),
        "P20" => crate::capacity::strategy(),
        // properties of single histories hold for any amounts
        "P01" | "P02" | "P04" | "P05" | "P06" | "P08" | "P09" | "P12" | "P13" | "P14" | "P15" => {
            let pr = profile(id);
            let big = Profile { extreme: true, invalid: pr.invalid.max(10), ..pr.clone() };
            let one = prop_oneof![24 => case(&pr), 1 => plain_case(&big)];
            // nor does their length matter
            match id {
                "P02" => prop_oneof![199 => one, 1 => long_days()].boxed(),
                "P06" => {
                    let several = Profile { pools: (2, 3), ..pr.clone() };
                    prop_oneof![9 => one, 1 => plain_case(&several)].boxed()
                }
                "P04" | "P05" => prop_oneof![199 => one, 1 => crate::capacity::staker()].boxed(),
                _ => one.boxed(),
            }
        }
        "P03" => {
            // whether an account can be closed does depend on earlier claims
            let long = long_days().prop_map(|mut c| {
                c.ops.retain(|o| !matches!(o, Op::Close { .. }));
                c
            });
            prop_oneof![199 => case(&profile(id)), 1 => long].boxed()
        }
        _ => case(&profile(id)),
    }
}

fn long_days() -> BoxedStrategy<Case> {
    crate::capacity::days(prop_oneof![2 => 20u16..400, 1 => 400u16..1090].boxed())
}

/// Cases of the quick tier (thorough multiplies).
pub fn quick_cases(id: &str) -> u32 {
    match id {
        "P11" | "P18" => 8_000,
        "P20" => 8_000,
        "P10" => 24_000,
        "P17" => 40_000,
        "P22" => 5_000,
        "P23" => 60_000,
        "P08" | "P09" | "P15" | "P16" | "P19" => 80_000,
        "P01" | "P02" | "P04" | "P05" | "P06" | "P12" | "P13" | "P14" => 60_000,
        _ => 40_000,
    }
}

pub fn rule(id: &str) -> &'static str {
    match id {
        "P01" | "P02" => "random history of pool and staker operations with clock jumps; non-trivial: at least one distribution paid two or more stakers and at least one operation followed",
        "P03" => "random history run as is and with extra claims inserted; non-trivial: at least one distribution paid and at least one account was touched afterwards in only one of the twins",
        "P04" => "random history heavy in deposits, withdrawals and jumps around expiry dates; non-trivial: at least one accepted deposit and one expiry date passed",
        "P05" => "random history heavy in restakes, slashes, penalties and delegation changes, then a walk over all expiry dates; non-trivial: at least one accepted restake, slash, withdrawal or delegation change, and a completed walk",
        "P06" => "random history heavy in delegation; non-trivial: a delegated deposit and a distribution that paid, or an accepted delegation change",
        "P07" => "random history, then one stake restaked in one fork and removed and deposited anew in the other; non-trivial: both forks accepted it",
        "P08" => "random schedule of fills, distributions and clock jumps; non-trivial: at least two distributions paid",
        "P09" => "random fills with arbitrary amounts, dates and source accounts; non-trivial: at least one accepted and one refused fill",
        "P10" => "every operation of a random history, with each required signature dropped or replaced; non-trivial: the mutants come from operations that are accepted when signed properly (counted as mutants)",
        "P11" => "every operation of a random history over 2-3 pools, with accounts replaced one by one and in groups by those of other pools and users and by look-alikes; non-trivial: mutants of operations that are accepted unmodified",
        "P12" => "random history heavy in claims to right and wrong destinations; non-trivial: at least one claim paid a positive amount",
        "P13" => "random history heavy in slashes; non-trivial: at least one slash accepted",
        "P14" => "random history heavy in penalties; non-trivial: at least one penalty accepted",
        "P15" => "random history heavy in closing and reopening; non-trivial: at least one close accepted",
        "P16" => "random history heavy in opening accounts (some with lamports sent to the address beforehand), new pools and re-initialisations; non-trivial: at least one account opened, one new pool and one refused initialisation",
        "P17" => "random history in which every operation is also built by the program crate's builder, three ways by the client, and from the IDL, and executed side by side; non-trivial: at least one such instruction was accepted",
        "P18" => "operations of a random history with mutated data bytes and account lists; non-trivial: mutants of operations that are accepted unmodified",
        "P19" => "random history with amounts at and around powers of two and overflow thresholds; non-trivial: at least one operation accepted with an amount above 2^32 and one refused",
        "P20" => "long histories driving the number of pending dates and distribution days to and past their bounds; non-trivial: a bound was reached or more than 100 entries were cycled",
        "P21" => "random history over 3-5 stakers, compared account by account, and replayed with only one staker's operations; non-trivial: the staker's operations and others' were both accepted",
        "P23" => "random history, and from its states bursts of transactions of one to three instructions assembled from everything there is, with accounts, signatures, arguments and bytes changed at random; non-trivial: at least one such instruction was accepted",
        "P22" => "random history in which every operation is also built by the published JavaScript client (run by node, in random argument styles) and executed side by side, and stored accounts are read by it; non-trivial: at least one such instruction was accepted",
        _ => "",
    }
}

fn nontrivial(id: &str, s: &Stats) -> bool {
    let g = |k: &str| s.get(k);
    match id {
        "P01" | "P02" => g("shared_distributions") > 0 && g("accepted") > 3,
        "P03" => g("paying_distributions") > 0 && g("twin_touches") > 0,
        "P04" => g("ok_deposit") > 0 && g("expiries") > 0,
        "P05" => g("walks") > 0 && g("ok_extend") + g("ok_slash") + g("ok_withdraw") + g("ok_change_delegate") > 0,
        "P06" => (g("delegated_deposits") > 0 && g("paying_distributions") > 0) || g("ok_change_delegate") > 0,
        "P07" => g("twin_extends") > 0,
        "P08" => g("paying_distributions") > 1,
        "P09" => g("ok_fill") > 0 && g("fill") > g("ok_fill"),
        "P10" | "P11" | "P18" => g("mutants") > 0,
        "P12" => g("paid_claims") > 0,
        "P13" => g("ok_slash") > 0,
        "P14" => g("ok_penalty") > 0,
        "P15" => g("ok_close") > 0,
        "P16" => g("ok_open") + g("strangers") > 0 && g("reinits") > 0 && g("fresh_pools") > 0,
        "P17" | "P22" => g("client_accepted") > 0,
        "P23" => g("chaos_accepted") > 0,
        "P19" => g("accepted_large") > 0 && g("refused") > 0,
        "P20" => g("bound_reached") > 0 || g("cycled") > 100,
        "P21" => g("twin_ok") > 0,
        _ => true,
    }
}

pub fn verdict(out: &Out, o: &mut Outcome) {
    if !out.own.is_empty() {
        o.fail = Some(out.own.iter().map(|m| m.msg.clone()).collect::<Vec<_>>().join("; "));
    }
    if out.foreign > 0 {
        o.foreign = true;
        o.trace.push(format!("(disagreement outside this property: {})", out.first_foreign.as_deref().unwrap_or("")));
    }
}

pub fn run(id: &'static str, case: &Case, trace: bool) -> Outcome {
    let mut out = Out::new(id);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(id, case, trace, &mut out)));
    let mut o = match r {
        Ok(o) => o,
        // past a disagreement the model may be off; before one, it is a bug here
        Err(_) if out.foreign > 0 || !out.own.is_empty() => Outcome::default(),
        Err(e) => std::panic::resume_unwind(e),
    };
    verdict(&out, &mut o);
    o
}

fn run_case(id: &'static str, case: &Case, trace: bool, out: &mut Out) -> Outcome {
    let mut o = Outcome::default();
    let mut sim = match Sim::new(&case.cfg) {
        Ok(s) => s,
        Err(m) => {
            out.push(m);
            return o;
        }
    };
    if trace {
        sim.trace = Some(vec![]);
    }
    match id {
        "P10" | "P11" | "P18" => crate::mutate::run(id, &mut sim, case, out),
        "P16" => crate::inits::run(&mut sim, case, out),
        "P17" => crate::clients::run(&mut sim, case, out),
        "P22" => crate::js::run(&mut sim, case, out),
        "P23" => crate::ident::run(&mut sim, case, out),
        "P20" => crate::capacity::run(&mut sim, case, out),
        "P03" => {
            sim.done = Some(vec![]);
            history(&mut sim, case, out);
            if out.is_empty() {
                crate::twins::touches(&mut sim, case, out);
            }
        }
        "P07" => {
            history_only(&mut sim, case, out);
            if out.is_empty() {
                crate::twins::restake(&mut sim, case, out);
            }
            finish(&mut sim, case, out);
        }
        "P08" => {
            history_only(&mut sim, case, out);
            drain(&mut sim, case, out);
        }
        "P21" => {
            sim.done = Some(vec![]);
            history_only(&mut sim, case, out);
            if out.is_empty() && !sim.poisoned {
                crate::twins::alone(&mut sim, case, out);
            }
            finish(&mut sim, case, out);
        }
        _ => history(&mut sim, case, out),
    }
    o.trace = sim.trace.take().unwrap_or_default();
    o.nontrivial = nontrivial(id, &sim.stats);
    o.stats = sim.stats;
    o
}

pub fn history_only(sim: &mut Sim, case: &Case, out: &mut Out) {
    let mid = case.x.get(1).map(|x| *x as usize % (case.ops.len() * 2 + 1)).unwrap_or(usize::MAX);
    for (i, op) in case.ops.iter().enumerate() {
        sim.step(op, out);
        if sim.stop || sim.poisoned {
            return;
        }
        if i == mid {
            // look into one possible future from here
            let mut f = sim.clone();
            f.log(|| "-- one possible future:".into());
            let before = f.stats.clone();
            f.walk(0, case.x.first().copied().unwrap_or(0) / 7, 6, out);
            if out.is_empty() {
                sim.stats.add("forked_walks", 1);
                let _ = before;
            } else {
                sim.stop = true;
                sim.trace = f.trace.take();
            }
        }
    }
}

pub fn finish(sim: &mut Sim, case: &Case, out: &mut Out) {
    if !out.is_empty() {
        return;
    }
    let j = case.x.first().copied().unwrap_or(0);
    for p in 0..sim.m.len() {
        sim.log(|| format!("-- walk of pool {p} to the last expiry"));
        sim.walk(p, j, 8, out);
    }
}

pub fn history(sim: &mut Sim, case: &Case, out: &mut Out) {
    history_only(sim, case, out);
    finish(sim, case, out);
}

/// P08: from any state, distributing every day releases everything by the end.
fn drain(sim: &mut Sim, case: &Case, out: &mut Out) {
    if !out.is_empty() || sim.stop || sim.poisoned {
        return;
    }
    let days = sim.m[0].ends.saturating_sub(sim.w.now) / crate::wire::DAY + sim.m[0].days.len() as u64;
    if days > 700 || sim.m[0].total == 0 {
        return;
    }
    sim.log(|| "-- daily distributions to the end of the schedule".into());
    let mut x = case.x.first().copied().unwrap_or(0);
    sim.observe = false;
    loop {
        // a distribution every day, at any second of it
        let fresh = !sim.m[0].days.contains(&crate::wire::day(sim.w.now));
        sim.exec_sem(0, &Sem::Distribute, out);
        if sim.stop || sim.m[0].total == 0 {
            return;
        }
        // one more distribution if the day's had been made before a fill
        if fresh && sim.w.now + crate::wire::DAY > sim.m[0].ends {
            break;
        }
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let sec = match x >> 30 {
            0 => 0,
            1 => crate::wire::DAY - 1,
            _ => (x as u64 >> 4) % crate::wire::DAY,
        };
        let t = crate::wire::day(sim.w.now) + crate::wire::DAY + sec;
        sim.advance_to(t, out);
    }
    let left = sim.pool_hdr(0).map(|h| h.avail).unwrap_or(u64::MAX);
    if left != 0 {
        out.push(Mismatch { props: vec!["P08"], msg: format!("{left} tokens were never released by the end of the schedule") });
    }
    sim.stats.add("drained", 1);
}
