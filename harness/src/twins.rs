//! Relations between two runs of the real program.
use crate::model::FRAC;
use crate::sim::*;
use crate::wire::*;

fn mm(props: &[&'static str], msg: String) -> Mismatch {
    Mismatch { props: props.to_vec(), msg }
}

struct Words<'a>(&'a [u32], u64);
impl Words<'_> {
    fn next(&mut self) -> u32 {
        let w = self.0.get(self.1 as usize % self.0.len().max(1)).copied().unwrap_or(0);
        self.1 += 1;
        // splitmix over the given words
        let mut z = (w as u64).wrapping_add(self.1.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z >> 32) as u32
    }
}

/// What a staker has received and could claim now.
fn earned(sim: &Sim, p: usize) -> Vec<Option<u128>> {
    let o = sim.observe(p);
    (0..o.users.len())
        .map(|u| match (&o.users[u], &sim.m[p].minings[u]) {
            (Some(Ok(x)), Some(m)) => Some(m.claimed + x.claim as u128),
            _ => None,
        })
        .collect()
}

/// P03: the same history with claims by anyone inserted anywhere ends with the
/// same earnings, up to rounding.
pub fn touches(a: &mut Sim, case: &Case, out: &mut Out) {
    if a.stop || a.poisoned {
        return;
    }
    let Some(done) = a.done.clone() else { return };
    let Ok(mut b) = Sim::new(&case.cfg) else { return };
    b.observe = false;
    b.trace = a.trace.as_ref().map(|_| vec!["-- the same history with claims inserted".into()]);
    let mut w = Words(&case.x, 0);
    let nu = b.cx.users.len();
    let mut n = 0;
    for (i, (t, p, sem, ok)) in done.iter().enumerate() {
        b.advance_to(*t, out);
        let got = b.exec_sem(*p, sem, out);
        if b.stop {
            break;
        }
        if got != *ok && !matches!(sem, Sem::Claim { .. } | Sem::Close { .. }) {
            out.push(mm(
                &["P03"],
                format!("{} was {} but is {} when others claim more often", sem.name(), word(*ok), word(got)),
            ));
            break;
        }
        let next = done.get(i + 1).map(|d| d.0).unwrap_or(*t);
        let r = w.next();
        if r & 3 == 0 {
            continue;
        }
        let u = (r >> 4) as usize % nu;
        if r & 4 == 4 && next > *t {
            // somewhere on the way to the next operation, often at the start of a day
            let mid = *t + (w.next() as u64) % (next - *t);
            let mid = if r & 8 == 8 { day(mid).max(*t) } else { mid };
            b.advance_to(mid, out);
        }
        if b.exec_sem(*p, &Sem::Claim { u, dest: 0 }, out) {
            n += 1;
        }
    }
    if out.is_empty() {
        for p in 0..a.m.len() {
            let (ea, eb) = (earned(a, p), earned(&b, p));
            for u in 0..nu {
                let (Some(x), Some(y)) = (ea[u], eb[u]) else { continue };
                let (Some(ma), Some(mb)) = (&a.m[p].minings[u], &b.m[p].minings[u]) else { continue };
                let slack = ma.touches.max(mb.touches) + (ma.res.max(mb.res) >> FRAC) + 2;
                if x.abs_diff(y) > slack {
                    out.push(mm(
                        &["P03"],
                        format!("staker {u} of pool {p} earned {x}, but {y} in the same history with {n} extra claims"),
                    ));
                }
            }
        }
    }
    a.stats.add("twin_touches", n);
    finish(a, b, out);
}

fn word(ok: bool) -> &'static str {
    if ok {
        "accepted"
    } else {
        "refused"
    }
}

fn finish(a: &mut Sim, b: Sim, out: &Out) {
    if !out.is_empty() {
        a.stop = true;
        if let (Some(t), Some(mut x)) = (a.trace.as_mut(), b.trace) {
            t.append(&mut x);
        }
    }
}

/// P07: restaking a stake against removing it and depositing anew.
pub fn restake(sim: &mut Sim, case: &Case, out: &mut Out) {
    if sim.stop || sim.poisoned {
        return;
    }
    let mut w = Words(&case.x, 7);
    let all: Vec<(usize, usize, Stake)> = sim
        .stakes
        .iter()
        .enumerate()
        .flat_map(|(p, us)| us.iter().enumerate().flat_map(move |(u, v)| v.iter().map(move |s| (p, u, s.clone()))))
        .collect();
    if all.is_empty() {
        return;
    }
    let (p, u, st) = all[w.next() as usize % all.len()].clone();
    let exp = expiry(st.lock, st.start);
    let t = match w.next() % 7 {
        0 => exp - 1,
        1 => exp,
        2 => exp + 1,
        3 => exp + w.next() as u64 % (3 * DAY),
        4 => exp - w.next() as u64 % (3 * DAY),
        _ => 0,
    };
    sim.advance_to(t, out);
    if !out.is_empty() {
        return;
    }
    let add = match w.next() % 3 {
        0 => 0,
        1 => 1 + w.next() as u64 % 1000,
        _ => 1_000_000,
    };
    let new = 1 + (w.next() % 4) as u8;
    let base = if w.next() % 3 == 0 { st.base / 2 } else { st.base };
    let del = st.del;
    if sim.m[p].minings[u].as_ref().is_none_or(|m| m.base() < base as i128) {
        return;
    }
    let mut a = sim.clone();
    let mut b = sim.clone();
    a.log(|| "-- fork: restaked".into());
    b.log(|| "-- fork: removed and deposited anew".into());
    for f in [&mut a, &mut b] {
        f.record = Some(vec![]);
    }
    let ok_a = a.exec_sem(p, &Sem::Extend { u, old: st.lock, new, start: st.start, base, add, del }, out);
    if !out.is_empty() {
        sim.stop = true;
        sim.trace = a.trace;
        return;
    }
    let live = st.lock != FLEX && exp > sim.w.now;
    let mut ok_b = true;
    if del != u {
        ok_b &= b.exec_sem(p, &Sem::Change { u, amt: base, old: del, new: u }, out);
    }
    ok_b = ok_b
        && if live {
            let k = mult(st.lock);
            b.exec_sem(p, &Sem::Slash { u, native: base, weighted: base.saturating_mul(k), date: Some(exp) }, out)
        } else {
            b.exec_sem(p, &Sem::Withdraw { u, amt: base, del: u }, out)
        };
    ok_b = ok_b && b.exec_sem(p, &Sem::Deposit { u, amt: base.saturating_add(add), lock: new, del }, out);
    if out.is_empty() && ok_a != ok_b {
        out.push(mm(&["P07"], format!("restaking was {} but removing and depositing anew {}", word(ok_a), word(ok_b))));
    }
    if out.is_empty() && ok_a {
        sim.stats.add("twin_extends", 1);
        for f in [&mut a, &mut b] {
            if let Some(r) = f.record.as_mut() {
                r.clear();
            }
            f.last = vec![None; f.m.len()];
        }
        let j = w.next();
        a.walk(p, j, 6, out);
        if out.is_empty() {
            b.walk(p, j, 6, out);
        }
        let (ra, rb) = (a.record.take().unwrap_or_default(), b.record.take().unwrap_or_default());
        for ((ta, pa, x), (tb, pb, y)) in ra.iter().zip(rb.iter()) {
            if !out.is_empty() || (ta, pa) != (tb, pb) {
                break;
            }
            if x.total.as_ref().ok() != y.total.as_ref().ok() {
                out.push(mm(
                    &["P07"],
                    format!("total weight at {ta} is {:?} after restaking but {:?} after depositing anew", x.total, y.total),
                ));
            }
            for (i, (m, n)) in x.users.iter().zip(y.users.iter()).enumerate() {
                if let (Some(Ok(m)), Some(Ok(n))) = (m, n) {
                    if (m.share, m.sfo) != (n.share, n.sfo) {
                        out.push(mm(
                            &["P07"],
                            format!("staker {i} at {ta}: {m:?} after restaking but {n:?} after depositing anew"),
                        ));
                    }
                    if m.claim.abs_diff(n.claim) > 64 {
                        out.push(mm(
                            &["P07"],
                            format!("staker {i} at {ta} can claim {} after restaking but {} after depositing anew", m.claim, n.claim),
                        ));
                    }
                }
            }
        }
    }
    if !out.is_empty() {
        sim.stop = true;
        if sim.trace.is_some() {
            let mut t = a.trace.unwrap_or_default();
            let at = sim.trace.as_ref().unwrap().len();
            t.extend(b.trace.unwrap_or_default().into_iter().skip(at));
            sim.trace = Some(t);
        }
    }
}

/// P21: what one staker's operations achieve does not depend on the others'.
pub fn alone(sim: &mut Sim, case: &Case, out: &mut Out) {
    let Some(done) = sim.done.clone() else { return };
    let mut w = Words(&case.x, 3);
    let nu = sim.cx.users.len();
    let a = w.next() as usize % nu;
    let a = sim.disputed.unwrap_or(a);
    let Ok(mut f) = Sim::new(&case.cfg) else { return };
    f.observe = false;
    f.trace = sim.trace.as_ref().map(|_| vec![format!("-- only staker {a}'s operations")]);
    let (mut mine, mut others) = (0, 0);
    // once the solo run departs from the full one (a request that needs others'
    // stake, an account opened or closed), the two are no longer comparable
    let mut closed = std::collections::HashSet::new();
    for (t, p, sem, ok) in &done {
        match sem.user() {
            Some(u) if u != a => {
                others += u64::from(*ok);
                match sem {
                    Sem::Close { .. } if *ok => {
                        closed.insert((*p, u));
                    }
                    Sem::Open { .. } if *ok => {
                        closed.remove(&(*p, u));
                    }
                    _ => {}
                }
                continue;
            }
            _ => {}
        }
        f.advance_to(*t, out);
        if matches!(sem, Sem::Close { .. } | Sem::Open { .. }) {
            break;
        }
        if sem.delegates().iter().any(|d| closed.contains(&(*p, *d))) {
            // the delegate left the pool: nothing to delegate to
            break;
        }
        let got = f.exec_sem(*p, sem, out);
        if f.stop || f.poisoned {
            break;
        }
        if sem.user() == Some(a) {
            mine += u64::from(got);
            if got && !ok {
                out.push(mm(
                    &["P21"],
                    format!("{sem:?} of staker {a} is accepted when alone but was refused among others"),
                ));
                break;
            }
            if !got && *ok {
                break;
            }
        }
    }
    if mine > 0 && others > 0 {
        sim.stats.add("twin_ok", 1);
    }
    finish(sim, f, out);
}
