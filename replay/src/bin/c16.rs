use ordinal_map::set::OrdinalSet64;
use ordinal_map::Ordinal;
use replay::*;
use std::fmt::Debug;

#[derive(Clone, Debug, Hash)]
enum Op {
    Insert(usize),
    CloneKeepOriginal(usize),
    CloneKeepClone(usize),
    FromIter(usize, Vec<usize>),
    Default,
    All,
}

fn sets<K: Ordinal + Spec + Clone + PartialEq + Debug>(r: &mut Run, label: &str) {
    let n = K::count() as usize;
    let k = |i: usize| K::nth(i as u128).unwrap();
    let full = move |s: &OrdinalSet64<K>, model: u128, when: &str| -> Result<(), String> {
        for i in 0..n {
            same!(s.contains(&k(i)), model >> i & 1 == 1, "contains of element {i} {when}");
        }
        // equality is equality of contents
        let fresh: OrdinalSet64<K> = (0..n).rev().filter(|i| model >> i & 1 == 1).map(k).collect();
        same!(*s == fresh, true, "equality with a set of the same elements {when}");
        for i in 0..n {
            let other: OrdinalSet64<K> = (0..n).filter(|j| (model >> j & 1 == 1) != (*j == i)).map(k).collect();
            same!(*s == other, false, "equality with a set differing in element {i} {when}");
            same!(*s != other, true, "inequality with a set differing in element {i} {when}");
        }
        same!(s.iter().take(70).map(|x| x.ordinal()).collect::<Vec<_>>(), (0..n).filter(|i| model >> i & 1 == 1).collect::<Vec<_>>(), "elements {when}");
        same!(*s == OrdinalSet64::<K>::all(), model == (1u128 << n) - 1, "equality with the full set {when}");
        same!(*s == OrdinalSet64::<K>::new(), model == 0, "equality with the empty set {when}");
        Ok(())
    };
    let run_ops = move |ops: &[Op]| -> Result<(), String> {
        let mut s = OrdinalSet64::<K>::new();
        let mut model = 0u128;
        for (step, op) in ops.iter().enumerate() {
            let when = format!("after step {step} ({op:?})");
            match op {
                Op::Insert(i) => {
                    same!(s.insert(k(*i)), model >> i & 1 == 0, "result of insert, {when}");
                    model |= 1 << i;
                }
                Op::CloneKeepOriginal(i) => {
                    let mut c = s.clone();
                    full(&c, model, "of a clone")?;
                    c.insert(k(*i));
                    full(&s, model, "of the original after changing its clone")?;
                }
                Op::CloneKeepClone(i) => {
                    let c = s.clone();
                    s.insert(k(*i));
                    s = c;
                }
                Op::FromIter(hint, xs) => {
                    s = hinted(*hint, xs.iter().map(|i| k(*i)).collect());
                    model = xs.iter().fold(0, |m, i| m | 1 << i);
                }
                Op::Default => {
                    s = Default::default();
                    model = 0;
                }
                Op::All => {
                    s = OrdinalSet64::all();
                    model = (1u128 << n) - 1;
                }
            }
            full(&s, model, &when)?;
        }
        Ok(())
    };
    r.history(label, vec![Op::All], run_ops);
    r.history(label, vec![Op::Default], run_ops);
    for hint in 0..5 {
        for times in 1..4 {
            if n <= 5000 || (hint, times) == (0, 1) {
                r.history(label, vec![Op::FromIter(hint, (0..n * times).map(|i| i % n).collect())], run_ops);
            }
        }
    }
    for xs in crowded(n) {
        for i in (0..n).filter(|i| *i < 3 || *i + 3 > n || *i == n / 2) {
            let fill = || Op::FromIter(0, xs.clone());
            r.history(label, vec![fill(), Op::Insert(i), Op::CloneKeepClone((i + 1) % n), Op::Insert((i + 2) % n)], run_ops);
            r.history(label, vec![fill(), Op::CloneKeepOriginal(i), Op::Default, Op::Insert(i)], run_ops);
        }
        r.history(label, xs.iter().map(|i| Op::Insert(*i)).collect(), run_ops);
        r.history(label, xs.iter().rev().map(|i| Op::Insert(*i)).collect(), run_ops);
    }
    for i in 0..n {
        r.history(label, vec![Op::All, Op::CloneKeepClone(i), Op::Insert(i)], run_ops);
        r.history(label, vec![Op::Insert(i), Op::Insert(i)], run_ops);
        r.history(label, vec![Op::All, Op::Insert(i)], run_ops);
        for j in 0..n {
            r.history(label, vec![Op::Insert(i), Op::Insert(j)], run_ops);
        }
    }
    let mut rng = Rng::new(r.seed ^ (n as u64) << 8);
    for _ in 0..r.scale(200, 10_000) {
        let len = 1 + rng.below(12);
        let ops = (0..len)
            .map(|_| {
                if n == 0 {
                    return [Op::Default, Op::All, Op::FromIter(rng.below(5), vec![])][rng.below(3)].clone();
                }
                let i = rng.below(n);
                match rng.below(14) {
                    0..=8 => Op::Insert(i),
                    9 => Op::CloneKeepOriginal(i),
                    10 => Op::CloneKeepClone(i),
                    11 => Op::FromIter(rng.below(5), (0..if rng.chance(1, 4) { 2 * n.min(100) } else { rng.below(6) }).map(|_| rng.below(n)).chain([i]).collect()),
                    12 => Op::All,
                    _ => Op::Default,
                }
            })
            .collect();
        r.history(label, ops, run_ops);
    }
}

fn main() {
    let mut run = Run::start("C16");
    let r = &mut run;
    macro_rules! go { ($($k:ty),* $(,)?) => { $( sets::<$k>(r, concat!("OrdinalSet64<", stringify!($k), ">")); )* } }
    go!(K<0>, (), K<1>, bool, Rev<3>, Box<K<5>>, Box<K<64>>, K<7>, K<8>, K<31>, K<32>, K<33>, K<62>, K<63>, K<64>, [bool; 6], Rev<64>, Option<K<62>>);
    run.finish();
}
