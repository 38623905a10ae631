pub mod drat;
pub mod selftest;
pub mod refsat;

/// does the total assignment (a list of signed variables in any order) satisfy every clause?
pub fn falsified<'a>(cls: &'a [Vec<i32>], model: &[bool]) -> Option<&'a Vec<i32>> {
    cls.iter()
        .find(|c| !c.iter().any(|l| model[l.unsigned_abs() as usize] == (*l > 0)))
}

/// the set of models of a formula over n<=16 variables as a bit table
pub fn table(nv: usize, cls: &[Vec<i32>]) -> Vec<u64> {
    assert!(nv <= 18);
    let size = 1usize << nv;
    let words = size.div_ceil(64);
    let mut t = vec![!0u64; words];
    if size < 64 {
        t[0] = (1u64 << size) - 1;
    }
    const PAT: [u64; 6] = [
        0xAAAA_AAAA_AAAA_AAAA,
        0xCCCC_CCCC_CCCC_CCCC,
        0xF0F0_F0F0_F0F0_F0F0,
        0xFF00_FF00_FF00_FF00,
        0xFFFF_0000_FFFF_0000,
        0xFFFF_FFFF_0000_0000,
    ];
    for c in cls {
        for (w, slot) in t.iter_mut().enumerate() {
            let mut m = 0u64;
            for l in c {
                let v = (l.unsigned_abs() - 1) as usize;
                let b = if v < 6 {
                    PAT[v]
                } else if w >> (v - 6) & 1 == 1 {
                    !0
                } else {
                    0
                };
                m |= if *l > 0 { b } else { !b };
            }
            *slot &= m;
        }
    }
    t
}

pub fn table_empty(t: &[u64]) -> bool {
    t.iter().all(|w| *w == 0)
}
