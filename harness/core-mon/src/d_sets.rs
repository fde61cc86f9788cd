//! D03: the value sets behind every query predicate, against brute force and against an
//! independent big-endian bit-string model.
use linkspace_core::predicate::bitset_test::BitTestSet;
use linkspace_core::predicate::uint::{u8_be, UInt};
use linkspace_core::predicate::{Bound, Mask, TestOp, TestSet, TEST_OP_CHARS};
use linkspace_pkt::{AB, B64, U256, U512};
use std::cmp::Ordering;
use std::collections::BTreeSet;
use vmlib::{ensure, no_panic, Obs, Prop, Res, Rng, Stage, OPTS};

pub const OPS: [TestOp; 6] = [TestOp::Nop, TestOp::Equal, TestOp::Less, TestOp::Greater, TestOp::Mask0, TestOp::Mask1];

pub static D03: Prop = Prop {
    id: "D03",
    stages: &[
        Stage { name: "u8-sets", quick: 72_000, thorough: 960_000, run: small },
        Stage { name: "u8-mask", quick: 256, thorough: 256, run: masks },
        Stage { name: "wide-sets", quick: 360_000, thorough: 4_800_000, run: wide },
        Stage { name: "uint", quick: 360_000, thorough: 4_000_000, run: uints },
        Stage { name: "bounds", quick: 120_000, thorough: 1_600_000, run: bounds },
        Stage { name: "depth-set", quick: 48_000, thorough: 400_000, run: depths },
    ],
    rule: "a set built from comparison and mask tests contains exactly the values that pass every one of them: test(), has_any/is_empty, min_value, info (next member), try_add's verdict, enumerate, the membership iterators, rules() rebuilt into a set, bound intersection, and the depth bit-set, judged by brute force over all 256 values of u8 and by an independent bit-string successor search for 16 to 512 bit values",
    assumptions: &["at most 6 tests per set", "info() is only asked of non-empty sets (documented)"],
    floors: &["sets-nonempty", "sets-empty-by-bound", "sets-empty-by-mask", "next-member", "wide-next-member", "wide-no-next", "bound-combine", "bound-disjoint", "iter-prefix"],
    opts: OPTS,
};

fn opt_u8(op: TestOp, x: u8, rh: u8) -> bool {
    match op {
        TestOp::Nop => true,
        TestOp::Equal => x == rh,
        TestOp::Less => x < rh,
        TestOp::Greater => x > rh,
        // every bit set in the value must be set in the operand
        TestOp::Mask0 => x & !rh == 0,
        // every bit set in the operand must be set in the value
        TestOp::Mask1 => rh & !x == 0,
    }
}
fn val8(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => *r.pick(&[0u8, 1, 2, 127, 128, 254, 255]),
        1 => 1 << r.below(8),
        2 => !(1 << r.below(8)),
        _ => r.u8(),
    }
}
/// does no value have all the bits its masks ask for
fn contradict(ops: impl Iterator<Item = (TestOp, B)>, n: usize) -> bool {
    let (mut ones, mut zeros) = (vec![0u8; n], vec![255u8; n]);
    for (op, v) in ops {
        match op {
            TestOp::Mask0 => zeros.iter_mut().zip(&v).for_each(|(a, b)| *a &= b),
            TestOp::Mask1 => ones.iter_mut().zip(&v).for_each(|(a, b)| *a |= b),
            _ => {}
        }
    }
    ones.iter().zip(&zeros).any(|(a, b)| a & !b != 0)
}
/// a set without members since its masks contradict
fn contradicting<T: UInt>(o: &mut Obs, set: TestSet<T>, show: &str, probe: T) -> Res {
    let inp = || show.to_string();
    let Ok(any) = no_panic("TestSet::has_any", &inp, || set.has_any()) else {
        o.soft("set-of-contradicting-masks", || format!("[{show}]: has_any() panics for a set whose masks contradict"));
        return Ok(());
    };
    ensure!(!any && set.is_empty(), "has_any", "[{show}]: has_any {any}, but the masks contradict");
    let min = no_panic("TestSet::min_value", &inp, || set.min_value())?;
    ensure!(min.is_none(), "min_value", "[{show}]: min_value {min:?}, but the masks contradict");
    let t = no_panic("TestSet::test", &inp, || set.test(probe))?;
    ensure!(!t, "test", "[{show}]: test({probe:?}) passes");
    let rules: Vec<_> = no_panic("TestSet::rules", &inp, || set.rules().collect::<Vec<_>>())?;
    ensure!(!rules.iter().all(|(op, rh)| op.uint_func()(&probe, rh)), "rules", "[{show}]: rules {rules:?} on {probe:?} pass");
    Ok(())
}
fn small(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let n = r.below(6);
    let mut ops: Vec<(TestOp, u8)> = (0..n).map(|_| (*r.pick(&OPS), val8(r))).collect();
    if r.chance(1, 3) {
        // more likely to stay non-empty
        let keep = val8(r);
        ops.retain(|(op, v)| opt_u8(*op, keep, *v));
    }
    o.distinct(ops.iter().map(|(a, b)| (a.into_byte(), *b)).collect::<Vec<_>>());
    let show = || ops.iter().map(|(a, b)| format!("{a}{b}")).collect::<Vec<_>>().join(" ");
    let member = |v: u8| ops.iter().all(|(op, rh)| opt_u8(*op, v, *rh));
    let all: BTreeSet<u8> = (0..=255).filter(|v| member(*v)).collect();
    if contradict(ops.iter().map(|(op, v)| (*op, vec![*v])), 1) {
        o.count("sets-empty-by-mask");
        let mut set = TestSet::<u8>::DEFAULT;
        for (op, v) in &ops {
            set.add(*op, *v)
        }
        return contradicting(o, set, &show(), val8(r));
    }
    let mut set = TestSet::<u8>::DEFAULT;
    let mut dead = false;
    let mut cur: Vec<(TestOp, u8)> = vec![];
    for (op, v) in &ops {
        cur.push((*op, *v));
        let ok = no_panic("TestSet::try_add", &show, || set.try_add(*op, *v).is_ok())?;
        let any = (0..=255u8).any(|x| cur.iter().all(|(op, rh)| opt_u8(*op, x, *rh)));
        if !any {
            dead = true;
            let bound_any = (0..=255u8).any(|x| cur.iter().filter(|c| !matches!(c.0, TestOp::Mask0 | TestOp::Mask1)).all(|(op, rh)| opt_u8(*op, x, *rh)));
            o.count(if bound_any { "sets-empty-by-mask" } else { "sets-empty-by-bound" });
        }
        ensure!(ok == any, "try_add", "adding {op}{v} after [{}] answered ok={ok}, but a value passing all tests exists: {any}", show());
        if dead {
            break;
        }
    }
    let mut set = TestSet::<u8>::DEFAULT;
    for (op, v) in &ops {
        set.add(*op, *v)
    }
    no_panic("TestSet Debug", &show, || format!("{set:?}"))?;
    let any = no_panic("TestSet::has_any", &show, || set.has_any())?;
    ensure!(any == !all.is_empty() && set.is_empty() != any, "has_any", "[{}]: has_any {any}, brute force {}", show(), !all.is_empty());
    for v in 0..=255u8 {
        let t = no_panic("TestSet::test", &|| format!("[{}] on {v}", show()), || set.test(v))?;
        ensure!(t == all.contains(&v), "test", "[{}]: test({v}) = {t}, brute force {}", show(), !t);
    }
    let min = no_panic("TestSet::min_value", &show, || set.min_value())?;
    ensure!(min == all.first().copied(), "min_value", "[{}]: min_value {min:?}, brute force {:?}", show(), all.first());
    if let Some(e) = set.as_eq() {
        ensure!(all.is_empty() || all.iter().eq([&e]), "as_eq", "[{}]: as_eq {e}, members {all:?}", show());
    }
    // rules() describe the same set
    let rules: Vec<_> = no_panic("TestSet::rules", &show, || set.rules().collect::<Vec<_>>())?;
    for v in 0..=255u8 {
        let t = rules.iter().all(|(op, rh)| opt_u8(*op, v, *rh));
        ensure!(t == all.contains(&v), "rules", "[{}]: rules {rules:?} on {v}: {t}", show());
    }
    let (e, l, g, m0, m1) = set.unpack();
    let parts: Vec<(TestOp, u8)> = [e.map(|x| x.unwrap()), l.map(|x| x.unwrap()), g.map(|x| x.unwrap()), m0.map(|x| x.unwrap()), m1.map(|x| x.unwrap())].into_iter().flatten().collect();
    for v in 0..=255u8 {
        let t = parts.iter().all(|(op, rh)| opt_u8(*op, v, *rh));
        ensure!(all.is_empty() || t == all.contains(&v), "unpack", "[{}]: unpack {parts:?} on {v}: {t}", show());
    }
    if all.is_empty() {
        return Ok(());
    }
    o.count("sets-nonempty");
    for v in 0..=255u8 {
        let i = no_panic("TestSet::info", &|| format!("[{}] at {v}", show()), || set.info(v))?;
        let want = all.range(v..).next().copied();
        ensure!(i.in_set == all.contains(&v) && i.val == want, "info", "[{}]: info({v}) = {i:?}, next member {want:?}", show());
        o.count("next-member");
    }
    let from = val8(r);
    let e: Vec<u8> = no_panic("TestSet::enumerate", &show, || set.enumerate(from).take(300).collect())?;
    ensure!(e.iter().copied().eq(all.range(from..).copied()), "enumerate", "[{}]: enumerate({from}) gave {e:?}, members {all:?}", show());
    // membership iterators: one answer per value from `from` on, ended after the greatest bound
    let hi = set.bound.high;
    let want: Vec<bool> = (from as u16..=255).take_while(|v| *v as u8 <= hi).map(|v| all.contains(&(v as u8))).collect();
    let got: Vec<bool> = no_panic("TestSet::iter", &show, || set.iter(from).take(want.len() + 1).collect())?;
    let n = want.len().min(got.len());
    // at the greatest value of the type the iterator cannot advance: it may stop early or repeat
    let short = hi == 255 && n + 1 == want.len() && want.last() == Some(&false);
    ensure!(got[..n] == want[..n] && (n == want.len() || short) && (hi == 255 || got.len() == want.len()), "iter", "[{}]: iter({from}) gave {got:?} expected {want:?} and an end if {hi} < 255", show());
    o.count("iter-prefix");
    let k = r.below(want.len() as u64 + 1) as usize;
    let mut at = from;
    let got2: Vec<bool> = no_panic("TestSet::iter_contains", &show, || set.iter_contains(&mut at).take(k).collect())?;
    let k2 = k.min(want.len());
    ensure!(got2 == want[..k2] || (hi == 255 && k2 == want.len() && !want[k2 - 1] && got2 == want[..k2 - 1]), "iter_contains", "[{}]: iter_contains({from}).take({k}) gave {got2:?}", show());
    let at_want = from as u16 + k as u16;
    ensure!(at as u16 == at_want.min(255), "iter_contains-at", "[{}]: after {k} answers from {from} the position is {at}", show());
    let p = set.iter(from).peek();
    ensure!(p == want.first().copied(), "peek", "[{}]: peek at {from} = {p:?}", show());
    Ok(())
}
/// every (ones, zeros, value) of u8
fn masks(_r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    o.eval();
    let zeros = i as u8;
    for ones in 0..=255u8 {
        let m = Mask { zeros, ones };
        let ok = |v: u8| v & !zeros == 0 && ones & !v == 0;
        let any = (0..=255).any(ok);
        ensure!(m.has_any() == any, "mask-any", "{m:?}: has_any {} brute force {any}", m.has_any());
        if !any {
            continue;
        }
        let (lo, hi) = ((0..=255).find(|v| ok(*v)).unwrap(), (0..=255).rev().find(|v| ok(*v)).unwrap());
        ensure!(m.min_val() == lo && m.max_val() == hi, "mask-range", "{m:?}: {}..{} want {lo}..{hi}", m.min_val(), m.max_val());
        for v in 0..=255u8 {
            let want = (v..=255).find(|x| ok(*x));
            let got = no_panic("Mask::in_set", &|| format!("{m:?} {v}"), || m.in_set(v))?;
            ensure!(got == want && m.test(&v) == ok(v), "mask-next", "{m:?}.in_set({v}) = {got:?}, brute force {want:?}");
            o.count("next-member");
        }
    }
    o.distinct(i);
    Ok(())
}
// ---- wide values as big-endian byte strings ----
pub trait W: UInt {
    const N: usize;
    fn from_be(b: &[u8]) -> Self;
}
macro_rules! w {
    ($($t:ty, $n:expr, $f:expr);*) => { $(impl W for $t { const N: usize = $n; fn from_be(b: &[u8]) -> Self { $f(b) } })* };
}
w!(u8, 1, |b: &[u8]| b[0]; u16, 2, |b: &[u8]| u16::from_be_bytes(b.try_into().unwrap()); u32, 4, |b: &[u8]| u32::from_be_bytes(b.try_into().unwrap());
   u64, 8, |b: &[u8]| u64::from_be_bytes(b.try_into().unwrap()); u128, 16, |b: &[u8]| u128::from_be_bytes(b.try_into().unwrap());
   U256, 32, |b: &[u8]| U256::from_be_bytes::<32>(b.try_into().unwrap()); U512, 64, |b: &[u8]| U512::from_be_bytes::<64>(b.try_into().unwrap());
   B64<[u8; 32]>, 32, |b: &[u8]| B64(b.try_into().unwrap()); AB<[u8; 16]>, 16, |b: &[u8]| AB(b.try_into().unwrap()));
type B = Vec<u8>;
fn bget(b: &B, i: usize) -> bool {
    b[b.len() - 1 - i / 8] >> (i % 8) & 1 == 1
}
fn bset(b: &mut B, i: usize, v: bool) {
    let n = b.len();
    let m = 1u8 << (i % 8);
    if v {
        b[n - 1 - i / 8] |= m
    } else {
        b[n - 1 - i / 8] &= !m
    }
}
fn add1(b: &B) -> Option<B> {
    let mut v = b.clone();
    for x in v.iter_mut().rev() {
        let (n, c) = x.overflowing_add(1);
        *x = n;
        if !c {
            return Some(v);
        }
    }
    None
}
fn sub1(b: &B) -> Option<B> {
    let mut v = b.clone();
    for x in v.iter_mut().rev() {
        let (n, c) = x.overflowing_sub(1);
        *x = n;
        if !c {
            return Some(v);
        }
    }
    None
}
fn sum(a: &B, b: &B) -> (B, bool) {
    let mut c = 0u16;
    let mut v = a.clone();
    for i in (0..v.len()).rev() {
        c += v[i] as u16 + b[i] as u16;
        v[i] = c as u8;
        c >>= 8;
    }
    (v, c != 0)
}
fn diff(a: &B, b: &B) -> (B, bool) {
    let mut c = 0i16;
    let mut v = a.clone();
    for i in (0..v.len()).rev() {
        c += v[i] as i16 - b[i] as i16;
        v[i] = c as u8;
        c >>= 8;
    }
    (v, c != 0)
}
#[derive(Clone)]
pub struct RSet {
    pub low: B,
    pub high: B,
    pub zeros: B,
    pub ones: B,
    pub empty: bool,
}
impl RSet {
    pub fn all(n: usize) -> RSet {
        RSet { low: vec![0; n], high: vec![255; n], zeros: vec![255; n], ones: vec![0; n], empty: false }
    }
    pub fn add(&mut self, op: TestOp, v: &B) {
        match op {
            TestOp::Nop => {}
            TestOp::Equal => {
                self.low = self.low.clone().max(v.clone());
                self.high = self.high.clone().min(v.clone());
            }
            TestOp::Less => match sub1(v) {
                Some(x) => self.high = self.high.clone().min(x),
                None => self.empty = true,
            },
            TestOp::Greater => match add1(v) {
                Some(x) => self.low = self.low.clone().max(x),
                None => self.empty = true,
            },
            TestOp::Mask0 => self.zeros.iter_mut().zip(v).for_each(|(a, b)| *a &= b),
            TestOp::Mask1 => self.ones.iter_mut().zip(v).for_each(|(a, b)| *a |= b),
        }
    }
    pub fn test(&self, v: &B) -> bool {
        !self.empty && *v >= self.low && *v <= self.high && self.mask_ok(v, 0)
    }
    /// bits at and above `from`
    fn mask_ok(&self, v: &B, from: usize) -> bool {
        (from..v.len() * 8).all(|i| {
            let b = bget(v, i);
            (!b || bget(&self.zeros, i)) && (b || !bget(&self.ones, i))
        })
    }
    /// least member at or above x
    pub fn next(&self, x: &B) -> Option<B> {
        if self.empty {
            return None;
        }
        let x = x.clone().max(self.low.clone());
        let bits = x.len() * 8;
        let mut found = None;
        if self.mask_ok(&x, 0) {
            found = Some(x.clone())
        } else {
            for i in 0..bits {
                if !bget(&x, i) && bget(&self.zeros, i) && self.mask_ok(&x, i + 1) {
                    let mut c = x.clone();
                    bset(&mut c, i, true);
                    for k in 0..i {
                        bset(&mut c, k, bget(&self.ones, k))
                    }
                    if self.mask_ok(&c, 0) {
                        found = Some(c);
                        break;
                    }
                }
            }
        }
        found.filter(|f| *f <= self.high)
    }
}
fn valw(r: &mut Rng, n: usize) -> B {
    match r.below(6) {
        0 => vec![0; n],
        1 => vec![255; n],
        2 => {
            let mut v = vec![0; n];
            bset(&mut v, r.usize(n * 8), true);
            v
        }
        3 => {
            let mut v = vec![255; n];
            bset(&mut v, r.usize(n * 8), false);
            v
        }
        4 => {
            let mut v = vec![0; n];
            v[n - 1] = r.u8();
            if r.bool() {
                let k = r.usize(n);
                v[k] = 255
            }
            v
        }
        _ => r.bytes(n),
    }
}
fn wide(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    match i % 8 {
        0 => wide_t::<u16>(r, o),
        1 => wide_t::<u32>(r, o),
        2 => wide_t::<u64>(r, o),
        3 => wide_t::<u128>(r, o),
        4 => wide_t::<U256>(r, o),
        5 => wide_t::<U512>(r, o),
        6 => wide_t::<B64<[u8; 32]>>(r, o),
        _ => wide_t::<AB<[u8; 16]>>(r, o),
    }
}
fn wide_t<T: W>(r: &mut Rng, o: &mut Obs) -> Res {
    o.eval();
    let tn = std::any::type_name::<T>();
    let keep = valw(r, T::N);
    let mut set = TestSet::<T>::DEFAULT;
    let mut rs = RSet::all(T::N);
    let mut txt = vec![];
    let mut all = vec![];
    for _ in 0..r.below(6) {
        let op = *r.pick(&OPS);
        let mut v = valw(r, T::N);
        if r.chance(2, 3) {
            // a test that `keep` passes
            v = match op {
                TestOp::Equal => keep.clone(),
                TestOp::Less => v.max(add1(&keep).unwrap_or(keep.clone())),
                TestOp::Greater => v.min(sub1(&keep).unwrap_or(keep.clone())),
                TestOp::Mask0 => v.iter().zip(&keep).map(|(a, b)| a | b).collect(),
                TestOp::Mask1 => v.iter().zip(&keep).map(|(a, b)| a & b).collect(),
                TestOp::Nop => v,
            }
        }
        txt.push(format!("{op}{}", vmlib::show(&v)));
        let inp = || format!("{tn} [{}]", txt.join(" "));
        rs.add(op, &v);
        all.push((op, v.clone()));
        if contradict(all.iter().cloned(), T::N) {
            set.add(op, T::from_be(&v));
            o.count("wide-empty");
            return contradicting(o, set, &inp(), T::from_be(&keep));
        }
        let ok = no_panic("TestSet::try_add", &inp, || set.try_add(op, T::from_be(&v)).is_ok())?;
        let any = rs.next(&vec![0; T::N]).is_some();
        ensure!(ok == any, "wide-try_add", "{}: try_add ok={ok}, a member exists: {any}", inp());
        if !any {
            o.count("wide-empty");
            return Ok(());
        }
    }
    let inp = || format!("{tn} [{}]", txt.join(" "));
    o.distinct(&txt);
    let min = no_panic("min_value", &inp, || set.min_value())?;
    ensure!(min.map(|m| m.to_be_vec()) == rs.next(&vec![0; T::N]), "wide-min", "{}: min {min:?}", inp());
    let mut probes = vec![keep.clone(), rs.low.clone(), rs.high.clone()];
    for _ in 0..6 {
        let mut p = valw(r, T::N);
        if r.bool() {
            p = probes[r.usize(probes.len())].clone();
            let k = r.usize(T::N * 8);
            let b = bget(&p, k);
            bset(&mut p, k, !b);
        }
        probes.push(p)
    }
    for p in probes {
        let t = no_panic("test", &inp, || set.test(T::from_be(&p)))?;
        ensure!(t == rs.test(&p), "wide-test", "{}: test({}) = {t}", inp(), vmlib::show(&p));
        let info = no_panic("info", &|| format!("{} at {}", inp(), vmlib::show(&p)), || set.info(T::from_be(&p)))?;
        let want = rs.next(&p);
        o.count(if want.is_some() { "wide-next-member" } else { "wide-no-next" });
        ensure!(info.in_set == t && info.val.map(|v| v.to_be_vec()) == want, "wide-info", "{}: info({}) = {info:?}, next member {want:?}", inp(), vmlib::show(&p));
    }
    Ok(())
}
fn uints(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    match i % 9 {
        0 => uint_t::<u16>(r, o),
        1 => uint_t::<u32>(r, o),
        2 => uint_t::<u64>(r, o),
        3 => uint_t::<u128>(r, o),
        4 => uint_t::<U256>(r, o),
        5 => uint_t::<U512>(r, o),
        6 => uint_t::<B64<[u8; 32]>>(r, o),
        7 => uint_t::<AB<[u8; 16]>>(r, o),
        _ => uint_t::<u8>(r, o),
    }
}
fn bits_of(b: &B) -> Vec<bool> {
    (0..b.len() * 8).map(|i| bget(b, i)).collect()
}
fn uint_t<T: W>(r: &mut Rng, o: &mut Obs) -> Res {
    o.eval();
    let tn = std::any::type_name::<T>();
    let (a, b) = (valw(r, T::N), valw(r, T::N));
    o.distinct((tn, &a, &b));
    let (x, y) = (T::from_be(&a), T::from_be(&b));
    let inp = || format!("{tn} {} {}", vmlib::show(&a), vmlib::show(&b));
    ensure!(x.to_be_vec() == a, "uint-bytes", "{}: to_be {:?}", inp(), x.to_be_vec());
    ensure!(T::BITS as usize == T::N * 8 && T::MIN.to_be_vec() == vec![0; T::N] && T::MAX.to_be_vec() == vec![255; T::N], "uint-consts", "{tn}");
    ensure!(T::ONE.to_be_vec() == { let mut v = vec![0; T::N]; v[T::N - 1] = 1; v }, "uint-one", "{tn}: ONE is {:?}", T::ONE.to_be_vec());
    ensure!(x.cmp(&y) == a.cmp(&b), "uint-cmp", "{}", inp());
    ensure!(x.not().to_be_vec() == a.iter().map(|v| !v).collect::<B>(), "uint-not", "{}", inp());
    ensure!(x.bit_and(y).to_be_vec() == a.iter().zip(&b).map(|(p, q)| p & q).collect::<B>(), "uint-and", "{}", inp());
    ensure!(x.bit_or(y).to_be_vec() == a.iter().zip(&b).map(|(p, q)| p | q).collect::<B>(), "uint-or", "{}", inp());
    let inc = no_panic("inc", &inp, || x.inc())?;
    ensure!(inc.map(|v| v.to_be_vec()) == add1(&a), "uint-inc", "{}: {inc:?}", inp());
    let dec = no_panic("decr", &inp, || x.decr())?;
    ensure!(dec.map(|v| v.to_be_vec()) == sub1(&a), "uint-decr", "{}: {dec:?}", inp());
    let (s, c) = no_panic("overflowing_add", &inp, || x.overflowing_add(y))?;
    ensure!((s.to_be_vec(), c) == sum(&a, &b), "uint-oadd", "{}: {s:?} {c}", inp());
    let ca = no_panic("checked_add", &inp, || x.checked_add(y))?;
    let (s, c) = sum(&a, &b);
    ensure!(ca.map(|v| v.to_be_vec()) == (!c).then_some(s), "uint-cadd", "{}: {ca:?}", inp());
    let cs = no_panic("checked_sub", &inp, || x.checked_sub(y))?;
    let (s, c) = diff(&a, &b);
    ensure!(cs.map(|v| v.to_be_vec()) == (!c).then_some(s), "uint-csub", "{}: {cs:?}", inp());
    let bits = bits_of(&a);
    let count = |it: &mut dyn Iterator<Item = &bool>, w: bool| it.take_while(|b| **b == w).count() as u32;
    ensure!(x.leading_zeros() == count(&mut bits.iter().rev(), false) && x.leading_ones() == count(&mut bits.iter().rev(), true), "uint-lead", "{}", inp());
    ensure!(x.trailing_zeros() == count(&mut bits.iter(), false) && x.trailing_ones() == count(&mut bits.iter(), true), "uint-trail", "{}", inp());
    let sh = r.below(T::BITS as u64) as u32;
    let mut l = vec![0; T::N];
    let mut rr = vec![0; T::N];
    for i in 0..bits.len() {
        if bits[i] {
            if i + (sh as usize) < bits.len() {
                bset(&mut l, i + sh as usize, true)
            }
            if i >= sh as usize {
                bset(&mut rr, i - sh as usize, true)
            }
        }
    }
    let gl = no_panic("shl", &inp, || x.overflowing_shl(sh))?;
    let gr = no_panic("shr", &inp, || x.overflowing_shr(sh))?;
    ensure!(gl.0.to_be_vec() == l && !gl.1 && gr.0.to_be_vec() == rr && !gr.1, "uint-shift", "{} by {sh}: {gl:?} {gr:?}", inp());
    // a shift by the width or more reports overflow
    let over = T::BITS + r.below(5) as u32;
    let g = no_panic("shl", &inp, || (x.overflowing_shl(over).1, x.overflowing_shr(over).1))?;
    ensure!(g == (true, true), "uint-shift-over", "{} by {over}: {g:?}", inp());
    // byte-slice helpers
    let mut m = a.clone();
    let ok = no_panic("add_one", &inp, || u8_be::add_one(&mut m).is_some())?;
    ensure!(ok.then_some(m.clone()) == add1(&a), "be-add_one", "{}: {m:?}", inp());
    let mut m = a.clone();
    let ok = no_panic("sub_one", &inp, || u8_be::sub_one(&mut m).is_some())?;
    ensure!(ok.then_some(m.clone()) == sub1(&a), "be-sub_one", "{}: {m:?}", inp());
    if T::N >= 8 {
        let (p, q): ([u8; 8], [u8; 8]) = (a[..8].try_into().unwrap(), b[..8].try_into().unwrap());
        let (pv, qv) = (u64::from_be_bytes(p), u64::from_be_bytes(q));
        ensure!(u8_be::add(p, q) == pv.checked_add(qv).map(u64::to_be_bytes), "be-add", "{p:?} {q:?}");
        ensure!(u8_be::sub(p, q) == pv.checked_sub(qv).map(u64::to_be_bytes), "be-sub", "{p:?} {q:?}");
        ensure!(u8_be::cmp(p, q) == pv.cmp(&qv), "be-cmp", "{p:?} {q:?}");
    }
    // the operators, on values and on byte strings
    for op in OPS {
        let want = match op {
            TestOp::Nop => true,
            TestOp::Equal => a == b,
            TestOp::Less => a < b,
            TestOp::Greater => a > b,
            TestOp::Mask0 => a.iter().zip(&b).all(|(p, q)| p & !q == 0),
            TestOp::Mask1 => a.iter().zip(&b).all(|(p, q)| q & !p == 0),
        };
        ensure!(op.uint_func()(&x, &y) == want, "op-uint", "{op} on {}: want {want}", inp());
        ensure!(op.slice_func()(&a, &b) == want, "op-slice", "{op} on {}: want {want}", inp());
        let c = op.into_byte();
        ensure!(TestOp::from_byte(c) == Some(op) && TestOp::try_from(&[c][..]).ok() == Some(op) && op.to_string().parse::<TestOp>().ok() == Some(op) && TEST_OP_CHARS.contains(&c), "op-text", "{op}");
    }
    let c = r.u8();
    ensure!(TestOp::from_byte(c).is_some() == TEST_OP_CHARS.contains(&c) && TestOp::try_from(&[c][..]).is_ok() == TEST_OP_CHARS.contains(&c) && TestOp::try_from(&[c, c][..]).is_err(), "op-text", "{c}");
    Ok(())
}
fn bounds(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let (a, b, c, d) = (val8(r), val8(r), val8(r), val8(r));
    o.distinct((a, b, c, d));
    let (x, y) = (Bound::<u8> { low: a.min(b), high: a.max(b) }, Bound::<u8> { low: c.min(d), high: c.max(d) });
    ensure!(x.has_any() && Bound::from(a..=b) == x, "bound-from", "{x:?}");
    let inside = |z: &Bound<u8>, v: u8| v >= z.low && v <= z.high;
    let both: BTreeSet<u8> = (0..=255).filter(|v| inside(&x, *v) && inside(&y, *v)).collect();
    let got = no_panic("Bound::try_combine", &|| format!("{x:?} {y:?}"), || x.try_combine(y).ok())?;
    match &got {
        Some(g) if y.high < x.low && (g.low, g.high) == (x.low, y.high) => o.soft("combine-disjoint", || format!("{x:?} and {y:?}: combined to {g:?}")),
        Some(g) => {
            let s: BTreeSet<u8> = (0..=255).filter(|v| g.test(*v)).collect();
            ensure!(s == both && !both.is_empty(), "bound-combine", "{x:?} and {y:?}: {g:?}");
            o.count("bound-combine")
        }
        None => {
            ensure!(both.is_empty(), "bound-combine", "{x:?} and {y:?}: refused, but {both:?} is in both");
            o.count("bound-disjoint")
        }
    }
    let v = val8(r);
    let want = if v < x.low { Ordering::Less } else if v > x.high { Ordering::Greater } else { Ordering::Equal };
    ensure!(x.bound_cmp(v) == want && x.test(v) == inside(&x, v), "bound-cmp", "{x:?} {v}");
    ensure!(x.less() == x.high.checked_add(1) && x.greater() == x.low.checked_sub(1), "bound-edges", "{x:?}: {:?} {:?}", x.less(), x.greater());
    let rules: Vec<_> = x.iter().collect();
    for v in 0..=255u8 {
        ensure!(rules.iter().all(|(op, q)| opt_u8(*op, v, *q)) == inside(&x, v), "bound-rules", "{x:?}: {rules:?} on {v}");
    }
    // tests one after the other
    let mut z = Bound::<u8>::DEFAULT;
    let mut cur = vec![];
    for _ in 0..r.below(5) {
        let (op, q) = (*r.pick(&OPS), val8(r));
        if matches!(op, TestOp::Mask0 | TestOp::Mask1) {
            continue;
        }
        cur.push((op, q));
        let any = (0..=255u8).any(|v| cur.iter().all(|(op, q)| opt_u8(*op, v, *q)));
        let ok = z.try_add(op, q).is_ok();
        ensure!(ok == any, "bound-try_add", "{cur:?}: ok={ok}");
        if !any {
            return Ok(());
        }
        for v in 0..=255u8 {
            ensure!(z.test(v) == cur.iter().all(|(op, q)| opt_u8(*op, v, *q)), "bound-test", "{cur:?}: {z:?} on {v}");
        }
    }
    Ok(())
}
fn depths(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    type D = BitTestSet<8>;
    // the one value that is not there
    let no8 = !D::ALL.contains(8);
    if no8 {
        o.soft("depths-without-8", || format!("the set of all depths (0 to 8) is {:?}", D::ALL));
    }
    ensure!((0..=7).all(|d| D::ALL.contains(d)) && !(9..=40).any(|d| D::ALL.contains(d)) && !(0..=40).any(|d| D::NONE.contains(d)), "depth-all", "the set of all depths (0 to 8) is {:?}", D::ALL);
    let els: Vec<u8> = (0..r.below(6)).map(|_| { let m = if r.bool() { 9 } else { 34 }; r.below(m) as u8 }).collect();
    let set: BTreeSet<u8> = els.iter().copied().filter(|e| *e < 32).collect();
    let d = D::from_el_iter(els.iter().copied());
    o.distinct(&els);
    for v in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 30, 31, 32, 33, 200, 255] {
        let inp = || format!("{set:?} at {v}");
        let next = set.range(v.saturating_add(1)..).next().copied().filter(|_| v < 255);
        ensure!(d.contains(v) == set.contains(&v), "depth-contains", "{}", inp());
        let g = no_panic("next_depth", &inp, || d.next_depth(v))?;
        ensure!(g == next, "depth-next", "{}: {g:?}", inp());
        let i = no_panic("depth info", &inp, || d.info(v))?;
        ensure!(i.in_set == set.contains(&v) && i.val == set.range(v..).next().copied(), "depth-info", "{}: {i:?}", inp());
        ensure!(d.contains_min(v) == set.range(v..).next().is_some(), "depth-min", "{}", inp());
    }
    let e = D::from_el_iter((0..r.below(6)).map(|_| r.below(9) as u8));
    for v in 0..40 {
        ensure!(d.and(e).contains(v) == (d.contains(v) && e.contains(v)), "depth-and", "{d:?} {e:?}");
    }
    let any = (0..32).any(|v| d.contains(v) && e.contains(v));
    let c = d.try_combine(e);
    ensure!(c.is_ok() == any && c.map(|c| c == d.and(e)).unwrap_or(true), "depth-combine", "{d:?} {e:?}");
    let ge = r.below(12) as u32;
    let g = no_panic("greater_eq", &|| ge.to_string(), || D::greater_eq(ge))?;
    for v in 0..=8u8 {
        ensure!(g.contains(v) == (v as u32 >= ge) || (no8 && v == 8 && !g.contains(8)), "depth-ge", "greater_eq({ge}) is {g:?}");
    }
    // from tests on u8
    let mut t = TestSet::<u8>::DEFAULT;
    for _ in 0..r.below(3) {
        t.add(*r.pick(&OPS), r.below(10) as u8)
    }
    if t.mask.ones & !t.mask.zeros != 0 {
        return Ok(());
    }
    let f = no_panic("from_rules", &|| format!("{:?} {:?}", t.bound, t.mask), || BitTestSet::<8>::from_rules(&t))?;
    let ok = |v: u8| v >= t.bound.low && v <= t.bound.high && v & !t.mask.zeros == 0 && t.mask.ones & !v == 0;
    for v in 0..=8u8 {
        ensure!(f.contains(v) == ok(v), "depth-rules", "{:?} {:?} gave {f:?}", t.bound, t.mask);
    }
    Ok(())
}
