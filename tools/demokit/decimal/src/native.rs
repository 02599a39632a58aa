// schoolbook arithmetic on little-endian 64-bit limbs
fn rd(p: *const u64, l: usize) -> Vec<u64> { let mut v: Vec<u64> = (0..l).map(|i| unsafe { *p.add(i) }).collect(); v.resize(14, 0); v }
fn cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering { for i in (0..14).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]) } } std::cmp::Ordering::Equal }
fn add(a: &[u64], b: &[u64]) -> Vec<u64> { let mut c = 0u128; (0..14).map(|i| { c += a[i] as u128 + b[i] as u128; let r = c as u64; c >>= 64; r }).collect() }
fn sub(a: &[u64], b: &[u64]) -> Vec<u64> { let mut c = 0i128; (0..14).map(|i| { c += a[i] as i128 - b[i] as i128; let r = c as u64; c >>= 64; r }).collect() }
fn mul(a: &[u64], b: &[u64]) -> Vec<u64> { let mut r = vec![0u64; 14]; for i in 0..14 { let mut c = 0u128; for j in 0..14 - i { c += a[i] as u128 * b[j] as u128 + r[i + j] as u128; r[i + j] = c as u64; c >>= 64; } } r }
fn shl1(a: &mut [u64], bit: u64) { let mut c = bit; for x in a.iter_mut() { let n = *x >> 63; *x = *x << 1 | c; c = n; } }
fn div(a: &[u64], b: &[u64]) -> Vec<u64> { let mut q = vec![0u64; 14]; let mut r = vec![0u64; 14];
    for i in (0..14 * 64).rev() { shl1(&mut r, a[i / 64] >> (i % 64) & 1); if cmp(&r, b) != std::cmp::Ordering::Less { r = sub(&r, b); q[i / 64] |= 1 << (i % 64); } } q }
fn one() -> Vec<u64> { let mut v = vec![0; 14]; v[0] = 1; v }
fn sqrt(a: &[u64]) -> Vec<u64> { let mut r = vec![0u64; 14]; for i in (0..6 * 64).rev() { r[i / 64] |= 1 << (i % 64); if cmp(&mul(&r, &r), a) == std::cmp::Ordering::Greater { r[i / 64] &= !(1 << (i % 64)); } } r }
pub unsafe fn sx_wide(op: u64, l: u64, a: *const u64, b: *const u64, c: *const u64, o: *mut u64) -> u64 {
    let l = l as usize;
    let (x, y, z) = (rd(a, l), rd(b, l), rd(c, l));
    let zero = vec![0u64; 14];
    let r = match op {
        0 => add(&x, &y),
        1 => if cmp(&x, &y) == std::cmp::Ordering::Less { return 0 } else { sub(&x, &y) },
        2 | 6 => { if z == zero { return 0 } let p = mul(&x, &y); div(&if op == 6 { sub(&add(&p, &z), &one()) } else { p }, &z) }
        3 => return (cmp(&x, &y) == std::cmp::Ordering::Less) as u64,
        4 => return (x == y) as u64,
        8 => sqrt(&mul(&x, &y)),
        _ => panic!(),
    };
    for i in 0..l { *o.add(i) = r[i] }
    r[l..].iter().all(|x| *x == 0) as u64
}
