//! Reference constructions, written independently of the code under test: canonical LR(1) with bit-mask
//! lookaheads, LALR(1) by merging its cores, LR(0), and LL(1) prediction sets.
use gram::{Plain, NT};

/// (nullable, first mask) per nonterminal; bit k is terminal k
fn first(p: &Plain) -> (Vec<bool>, Vec<u32>) {
    let mut nullable = vec![false; p.nts];
    let mut f = vec![0u32; p.nts];
    loop {
        let mut changed = false;
        for (l, rhs) in &p.rules {
            let (n, m) = first_of(rhs, &nullable, &f);
            let l = *l as usize;
            if n && !nullable[l] { nullable[l] = true; changed = true }
            if f[l] | m != f[l] { f[l] |= m; changed = true }
        }
        if !changed { return (nullable, f) }
    }
}
fn first_of(rhs: &[u8], nullable: &[bool], f: &[u32]) -> (bool, u32) {
    let mut m = 0;
    for x in rhs {
        if *x < NT { return (false, m | 1 << x) }
        m |= f[(*x - NT) as usize];
        if !nullable[(*x - NT) as usize] { return (false, m) }
    }
    (true, m)
}
/// Per rule, the lookaheads that predict it; bit ts is the end of input.
pub fn ll_predict(p: &Plain) -> Vec<u32> {
    let (nullable, f) = first(p);
    let mut follow = vec![0u32; p.nts];
    follow[p.entry] = 1 << p.ts;
    loop {
        let mut changed = false;
        for (l, rhs) in &p.rules {
            for (i, x) in rhs.iter().enumerate() {
                if *x >= NT {
                    let (n, mut m) = first_of(&rhs[i + 1..], &nullable, &f);
                    if n { m |= follow[*l as usize] }
                    let k = (*x - NT) as usize;
                    if follow[k] | m != follow[k] { follow[k] |= m; changed = true }
                }
            }
        }
        if !changed { break }
    }
    p.rules.iter().map(|(l, rhs)| { let (n, m) = first_of(rhs, &nullable, &f); if n { m | follow[*l as usize] } else { m } }).collect()
}

/// items: (rule, dot) -> lookahead mask, sorted; rule index rules.len() is the start rule
type State = Vec<(u16, u32)>;
pub struct Conflicts { pub sr: Vec<(usize, u8)>, pub rr: Vec<(usize, usize)> }

pub fn lr_conflicts(p: &Plain, mode: u64) -> Conflicts {
    let (nullable, f) = first(p);
    let n = p.rules.len();
    let start = [NT + p.entry as u8];
    let rhs = |r: usize| -> &[u8] { if r == n { &start } else { &p.rules[r].1 } };
    let all = if mode == 0 { 1 } else { 0 };
    // (rule, dot) is coded rule * 16 + dot
    let closure = |s: &mut State| {
        let mut i = 0;
        let mut again = true;
        while again {
            again = false;
            i = 0;
            while i < s.len() {
                let (it, la) = s[i];
                let (r, d) = ((it / 16) as usize, (it % 16) as usize);
                let x = rhs(r);
                if d < x.len() && x[d] >= NT {
                    let m = if all == 1 { 1 } else {
                        let (e, m) = first_of(&x[d + 1..], &nullable, &f);
                        if e { m | la } else { m }
                    };
                    for q in 0..n {
                        if p.rules[q].0 == x[d] - NT && (m != 0) {
                            let c = q as u16 * 16;
                            match s.iter().position(|y| y.0 == c) {
                                Some(k) => if s[k].1 | m != s[k].1 { s[k].1 |= m; again = true },
                                None => { s.push((c, m)); again = true }
                            }
                        }
                    }
                }
                i += 1;
            }
        }
        let _ = i;
        s.sort_unstable();
    };
    let mut first_state: State = vec![(n as u16 * 16, if all == 1 { 1 } else { 1 << p.ts })];
    closure(&mut first_state);
    let mut states = vec![first_state];
    let mut i = 0;
    while i < states.len() {
        let mut done: Vec<u8> = vec![];
        for k in 0..states[i].len() {
            let (it, _) = states[i][k];
            let x = rhs((it / 16) as usize);
            let d = (it % 16) as usize;
            if d < x.len() && !done.contains(&x[d]) {
                let s = x[d];
                done.push(s);
                let mut t: State = vec![];
                for (it, la) in &states[i] {
                    let x = rhs((*it / 16) as usize);
                    let d = (*it % 16) as usize;
                    if d < x.len() && x[d] == s { t.push((it + 1, *la)) }
                }
                closure(&mut t);
                if !states.contains(&t) { states.push(t) }
            }
        }
        i += 1;
        if states.len() > 400 { sym::fail(69) }
    }
    if mode == 1 {
        let mut merged: Vec<State> = vec![];
        for s in states {
            match merged.iter_mut().find(|m| m.len() == s.len() && m.iter().zip(&s).all(|(a, b)| a.0 == b.0)) {
                Some(m) => for (a, b) in m.iter_mut().zip(&s) { a.1 |= b.1 },
                None => merged.push(s),
            }
        }
        states = merged;
    }
    let mut c = Conflicts { sr: vec![], rr: vec![] };
    for s in &states {
        let complete: Vec<(usize, u32)> = s.iter().filter(|(it, _)| (it % 16) as usize == rhs((it / 16) as usize).len()).map(|(it, la)| ((it / 16) as usize, *la)).collect();
        for (i, (a, la)) in complete.iter().enumerate() {
            for (b, lb) in &complete[i + 1..] {
                if la & lb != 0 { let k = ((*a).min(*b), (*a).max(*b)); if !c.rr.contains(&k) { c.rr.push(k) } }
            }
            for (it, _) in s {
                let x = rhs((it / 16) as usize);
                let d = (it % 16) as usize;
                // in LR(0), accepting looks at the end of input only
                if d < x.len() && x[d] < NT && if all == 1 { *a != n } else { la >> x[d] & 1 == 1 } {
                    if !c.sr.contains(&(*a, x[d])) { c.sr.push((*a, x[d])) }
                }
            }
        }
    }
    c
}

/// Every nonterminal derives some token string.
pub fn productive(p: &Plain) -> bool {
    let mut ok = vec![false; p.nts];
    for _ in 0..p.nts {
        for (l, rhs) in &p.rules {
            if rhs.iter().all(|x| *x < NT || ok[(*x - NT) as usize]) { ok[*l as usize] = true }
        }
    }
    ok.iter().all(|x| *x)
}
