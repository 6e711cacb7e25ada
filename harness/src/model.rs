//! Reference model: what pools and stakers are worth, independent of how the
//! program stores it. Weights decay eagerly as time passes; rewards are exact
//! (fixed point with 60 fractional bits and a counted error), so the program's
//! lazy settlement can be judged against the exact pro-rata share.
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};

pub const FRAC: u32 = 60;
pub type Res<T = ()> = Result<T, &'static str>;

pub const E_ARITH: &str = "arithmetic overflow";
pub const E_LOCK: &str = "invalid lockup";
pub const E_FULL: &str = "too many pending expiry dates";
pub const E_NOACC: &str = "no such staker account";
pub const E_STAKE: &str = "exceeds the stake";
pub const E_NODATE: &str = "no recorded expiry at that date";
pub const E_DELEGATED: &str = "exceeds the delegated stake";
pub const E_SAME: &str = "delegates are the same";
pub const E_BIG: &str = "penalty exceeds the weight";
pub const E_NOTHING: &str = "nothing staked";
pub const E_INDEX_FULL: &str = "distribution history full";

#[derive(Clone, Debug, Default)]
pub struct MMining {
    pub share: u64,
    pub sfo: u64,
    /// boosts that end at the start of a day (zero entries included)
    pub diffs: BTreeMap<u64, u64>,
    /// exact rewards since opening, in 2^-60 token units, rounded down;
    /// the true value is below credit + ulps
    pub credit: u128,
    pub ulps: u128,
    /// upper bound on the number of times the account was settled
    pub touches: u128,
    /// index resolution loss, in 2^-60 units, rounded up
    pub res: u128,
    pub claimed: u128,
    /// provenance, for attributing a mismatch
    pub extended: bool,
    pub slashed: bool,
    pub penalised: bool,
    pub delegated_to: bool,
}

impl MMining {
    pub fn base(&self) -> i128 {
        self.share as i128 - self.diffs.values().map(|v| *v as i128).sum::<i128>()
    }
    pub fn weight(&self) -> u128 {
        self.share as u128 + self.sfo as u128
    }
    /// bounds on claimed + claimable
    pub fn bounds(&self) -> (u128, u128) {
        let hi = (self.credit + self.ulps) >> FRAC;
        let loss = (self.touches << FRAC) + self.res;
        // strictly more than credit - loss: every rounding loses less than one unit
        let lo = if self.credit < loss { 0 } else { ((self.credit - loss) >> FRAC) + 1 };
        let lo = lo.min(hi);
        (lo, hi)
    }
}

#[derive(Clone, Debug, Default)]
pub struct MPool {
    pub total: u64,
    pub diffs: BTreeMap<u64, u64>,
    pub ends: u64,
    pub avail: u64,
    pub days: BTreeSet<u64>,
    pub minings: Vec<Option<MMining>>,
    pub filled: u128,
    pub distributed: u128,
    pub claimed: u128,
    /// tokens sent to the vault by anyone, outside fills
    pub donated: u128,
    /// weight forfeited by penalties or closures still in the total (informative)
    pub forfeits: bool,
    /// boosts that have expired so far
    pub expired: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct ExtendArgs {
    pub old: u8,
    pub new: u8,
    pub start: u64,
    pub base: u64,
    pub add: u64,
    pub del: Option<usize>,
}

impl MPool {
    pub fn advance(&mut self, now: u64) {
        let d = day(now);
        while let Some((k, v)) = self.diffs.first_key_value().map(|(k, v)| (*k, *v)) {
            if k > d {
                break;
            }
            self.diffs.remove(&k);
            self.total = self.total.saturating_sub(v);
            self.expired += v as u128;
        }
        for m in self.minings.iter_mut().flatten() {
            while let Some((k, v)) = m.diffs.first_key_value().map(|(k, v)| (*k, *v)) {
                if k > d {
                    break;
                }
                m.diffs.remove(&k);
                m.share = m.share.saturating_sub(v);
                m.touches += 1;
            }
        }
    }

    fn mining(&self, u: usize) -> Res<&MMining> {
        self.minings.get(u).and_then(|m| m.as_ref()).ok_or(E_NOACC)
    }

    pub fn touch(&mut self, u: usize) {
        if let Some(Some(m)) = self.minings.get_mut(u) {
            m.touches += 1;
        }
    }

    fn put_delegate(&mut self, d: usize, amt: u64) -> Res {
        let m = self.minings.get_mut(d).and_then(|m| m.as_mut()).ok_or(E_NOACC)?;
        m.sfo = m.sfo.checked_add(amt).ok_or(E_ARITH)?;
        m.touches += 1;
        m.delegated_to = true;
        self.total = self.total.checked_add(amt).ok_or(E_ARITH)?;
        Ok(())
    }

    fn take_delegate(&mut self, d: usize, amt: u64) -> Res {
        let m = self.minings.get_mut(d).and_then(|m| m.as_mut()).ok_or(E_NOACC)?;
        m.sfo = m.sfo.checked_sub(amt).ok_or(E_DELEGATED)?;
        m.touches += 1;
        m.delegated_to = true;
        self.total = self.total.checked_sub(amt).ok_or(E_DELEGATED)?;
        Ok(())
    }

    /// All operations below work on a copy and replace `self` only on success.
    fn atomically(&mut self, f: impl FnOnce(&mut MPool) -> Res) -> Res {
        let mut c = self.clone();
        f(&mut c)?;
        *self = c;
        Ok(())
    }

    fn do_deposit(&mut self, u: usize, amt: u64, lock: u8, del: Option<usize>, now: u64) -> Res {
        if lock == NONE || lock > 4 {
            return Err(E_LOCK);
        }
        let w = amt.checked_mul(mult(lock)).ok_or(E_ARITH)?;
        let exp = expiry(lock, now);
        self.total = self.total.checked_add(w).ok_or(E_ARITH)?;
        *self.diffs.entry(exp).or_default() += w - amt;
        let m = self.minings.get_mut(u).and_then(|m| m.as_mut()).ok_or(E_NOACC)?;
        m.touches += 1;
        m.share = m.share.checked_add(w).ok_or(E_ARITH)?;
        if !m.diffs.contains_key(&exp) && m.diffs.len() >= MINING_CAP {
            return Err(E_FULL);
        }
        *m.diffs.entry(exp).or_default() += w - amt;
        if let Some(d) = del.filter(|d| *d != u) {
            self.put_delegate(d, amt)?;
        }
        Ok(())
    }

    pub fn deposit(&mut self, u: usize, amt: u64, lock: u8, del: Option<usize>, now: u64) -> Res {
        self.atomically(|p| p.do_deposit(u, amt, lock, del, now))
    }

    pub fn withdraw(&mut self, u: usize, amt: u64, del: Option<usize>) -> Res {
        self.atomically(|p| {
            let m = p.minings.get_mut(u).and_then(|m| m.as_mut()).ok_or(E_NOACC)?;
            m.touches += 1;
            m.share = m.share.checked_sub(amt).ok_or(E_STAKE)?;
            p.total = p.total.checked_sub(amt).ok_or(E_STAKE)?;
            if let Some(d) = del.filter(|d| *d != u) {
                p.take_delegate(d, amt)?;
            }
            Ok(())
        })
    }

    pub fn extend(&mut self, u: usize, a: ExtendArgs, now: u64) -> Res {
        self.atomically(|p| {
            if a.old == NONE || a.new == NONE || a.old > 4 || a.new > 4 {
                return Err(E_LOCK);
            }
            let old_exp = if a.old == FLEX {
                0
            } else {
                day(a.start).checked_add(lock_days(a.old) * DAY).ok_or(E_ARITH)?
            };
            let m = p.minings.get_mut(u).and_then(|m| m.as_mut()).ok_or(E_NOACC)?;
            m.touches += 1;
            m.extended = true;
            let removed = if now < old_exp {
                let w = a.base.checked_mul(mult(a.old)).ok_or(E_ARITH)?;
                for t in [&mut m.diffs, &mut p.diffs] {
                    let e = t.get_mut(&old_exp).ok_or(E_NODATE)?;
                    *e = e.checked_sub(w - a.base).ok_or(E_STAKE)?;
                }
                w
            } else {
                a.base
            };
            m.share = m.share.checked_sub(removed).ok_or(E_STAKE)?;
            p.total = p.total.checked_sub(removed).ok_or(E_STAKE)?;
            let sum = a.base.checked_add(a.add).ok_or(E_ARITH)?;
            if let Some(d) = a.del.filter(|d| *d != u) {
                p.take_delegate(d, a.base)?;
            }
            p.do_deposit(u, sum, a.new, a.del, now)
        })
    }

    /// `old`/`new` name the delegates (the staker himself: no delegate).
    pub fn change_delegate(&mut self, u: usize, amt: u64, old: usize, new: usize) -> Res {
        self.atomically(|p| {
            if old == new {
                return Err(E_SAME);
            }
            p.mining(u)?;
            p.mining(old)?;
            p.mining(new)?;
            p.touch(u);
            if old != u {
                p.take_delegate(old, amt)?;
            }
            if new != u {
                p.put_delegate(new, amt)?;
            }
            Ok(())
        })
    }

    pub fn slash(&mut self, u: usize, native: u64, weighted: u64, date: Option<u64>) -> Res {
        self.atomically(|p| {
            let m = p.minings.get_mut(u).and_then(|m| m.as_mut()).ok_or(E_NOACC)?;
            m.touches += 1;
            m.slashed = true;
            m.share = m.share.checked_sub(weighted).ok_or(E_STAKE)?;
            p.total = p.total.checked_sub(weighted).ok_or(E_STAKE)?;
            if let Some(d) = date {
                let boost = weighted.checked_sub(native).ok_or(E_STAKE)?;
                for t in [&mut m.diffs, &mut p.diffs] {
                    let e = t.get_mut(&day(d)).ok_or(E_NODATE)?;
                    *e = e.checked_sub(boost).ok_or(E_STAKE)?;
                }
            }
            Ok(())
        })
    }

    pub fn penalty(&mut self, u: usize, n: u64) -> Res {
        self.atomically(|p| {
            let m = p.minings.get_mut(u).and_then(|m| m.as_mut()).ok_or(E_NOACC)?;
            m.touches += 1;
            if n > 0 {
                m.penalised = true;
            }
            m.share = m.share.checked_sub(n).ok_or(E_BIG)?;
            let mut left = n;
            for (_, v) in m.diffs.iter_mut().rev() {
                let x = left.min(*v);
                *v -= x;
                left -= x;
            }
            p.forfeits |= n > 0;
            Ok(())
        })
    }

    pub fn would_release(&self, now: u64) -> u64 {
        let days = self.ends.saturating_sub(now) / DAY;
        if days == 0 {
            self.avail
        } else {
            self.avail / days
        }
    }

    /// Returns the amount released.
    pub fn distribute(&mut self, now: u64) -> Res<u64> {
        if self.total == 0 {
            return Err(E_NOTHING);
        }
        if self.days.contains(&day(now)) {
            return Ok(0);
        }
        if self.days.len() >= INDEX_CAP {
            return Err(E_INDEX_FULL);
        }
        let r = self.would_release(now);
        self.avail -= r;
        self.days.insert(day(now));
        self.distributed += r as u128;
        let t = self.total as u128;
        for m in self.minings.iter_mut().flatten() {
            let w = m.weight();
            if w == 0 {
                continue;
            }
            let n = r as u128 * w;
            m.credit += ((n / t) << FRAC) + ((n % t) << FRAC) / t;
            m.ulps += 1;
            // the index step is rounded down to 1e-16: the loss is below w * 1e-16
            m.res += (w << FRAC) / 10_000_000_000_000_000 + 1;
        }
        Ok(r)
    }

    pub fn fill(&mut self, amount: u64, ends: u64, now: u64) -> Res {
        if amount == 0 {
            return Err("zero fill");
        }
        if day(ends) < day(now) {
            return Err("end day in the past");
        }
        if day(ends) < self.ends {
            return Err("end day before the current end date");
        }
        self.avail = self.avail.checked_add(amount).ok_or(E_ARITH)?;
        self.ends = day(ends);
        self.filled += amount as u128;
        Ok(())
    }

    pub fn vault(&self) -> u128 {
        self.filled + self.donated - self.claimed
    }

    pub fn pending_dates(&self) -> BTreeSet<u64> {
        let mut s: BTreeSet<u64> = self.diffs.keys().copied().collect();
        for m in self.minings.iter().flatten() {
            s.extend(m.diffs.keys());
        }
        s
    }
}
