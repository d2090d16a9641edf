//! A simulated disk: files as bytes in sectors, and what disks do to them.
use simrt::{count, trace, Tape};

/// Apply one storage fault. `older` is what the same file held before (torn writes).
pub fn fault(t: &mut Tape, b: &mut Vec<u8>, older: &[u8]) {
    if b.is_empty() { b.extend([0, 0]); }
    let n = b.len();
    // offsets are drawn from the end backwards in one case of three: the root is there
    let at = |t: &mut Tape, n: usize| { let x = t.usize(n); if t.chance(1, 3) { n - 1 - x.min(n - 1).min(16) } else { x } };
    let sec = t.pick(&[2usize, 4, 8, 16, 64, 512]);
    let nsec = n.div_ceil(sec);
    let rng = |s: usize| (s * sec).min(n)..((s + 1) * sec).min(n);
    match t.weighted(&[6, 6, 3, 2, 2, 3, 2, 3, 3, 3, 3, 3]) {
        0 => { let i = at(t, n); let bit = t.draw(8); b[i] ^= 1 << bit; trace!("fault: bit {bit} of byte {i} flipped"); count("fault: bit flipped"); }
        1 => {
            // a byte that means something, with a value that means something
            let heads: Vec<usize> = (0..n).filter(|i| i % 2 == 0 && (b[*i] >= 0x80 || (0x40..0x80).contains(&b[*i]))).collect();
            let i = if heads.is_empty() { at(t, n) } else { let k = t.usize(heads.len()); heads[if t.chance(1, 2) { heads.len() - 1 - k } else { k }] };
            let v = t.pick(&[0x80u8, 0x60, 0x68, 0x67, 0x6f, 0x70, 0x77, 0x7f, 0x78, 0x4f, 0x5f, 0x40, 0x1f, 0x28, 0xff, 0xc0, 0x00, 0xbf, 0x4e, 0x17, 0x20]);
            b[i] = v;
            if t.chance(1, 2) && i + 1 < n { b[i + 1] = t.pick(&[0u8, 1, 2, 3, 0xff, 0x7f, 0x80, 4]); }
            trace!("fault: header byte {i} becomes {v:#x}"); count("fault: header byte overwritten");
        }
        2 => { let i = at(t, n); let v = t.draw(256) as u8; b[i] = v; trace!("fault: byte {i} becomes {v:#x}"); count("fault: byte overwritten"); }
        3 => { let s = t.usize(nsec); for x in &mut b[rng(s)] { *x = 0; } trace!("fault: sector {s} of {sec} bytes lost (zeroes)"); count("fault: sector lost, reads zeroes"); }
        4 => { let s = t.usize(nsec); let v = t.pick(&[0xffu8, 0xa5, 0x80, 0x41]); for x in &mut b[rng(s)] { *x = v; } trace!("fault: sector {s} of {sec} bytes reads {v:#x}"); count("fault: sector never written"); }
        5 => {
            // misdirected write: one sector's bytes land on another
            let (p, q) = (t.usize(nsec), t.usize(nsec));
            let src = b[rng(p)].to_vec();
            let q = rng(q);
            let l = src.len().min(q.len());
            let keep = b[q.clone()].to_vec();
            b[q.start..q.start + l].copy_from_slice(&src[..l]);
            if t.chance(1, 2) { let r = rng(p); let l = r.len().min(keep.len()); b[r.start..r.start + l].copy_from_slice(&keep[..l]); trace!("fault: sectors {p} and {} of {sec} swapped", q.start / sec); count("fault: sectors swapped"); }
            else { trace!("fault: sector {p} of {sec} also written to {}", q.start / sec); count("fault: write misdirected"); }
        }
        6 => {
            // torn overwrite: some sectors still hold the older version
            if older.is_empty() { b[0] ^= 1; return; }
            let s = t.usize(nsec + 1) * sec;
            let tail = t.chance(1, 2);
            for i in 0..n { if (i >= s) != tail { if let Some(o) = older.get(i) { b[i] = *o; } } }
            trace!("fault: torn write at {s}"); count("fault: torn write over an older version");
        }
        7 => { let k = t.usize(n); let k = if t.chance(1, 2) { n - 1 - k.min(n - 1).min(8) } else { k }; b.truncate(k); trace!("fault: truncated to {k}"); count("fault: file truncated"); }
        8 => {
            let k = 1 + t.usize(24);
            let v = t.draw(4);
            for i in 0..k { b.push(match v { 0 => 0, 1 => 0x80, 2 => older.get(i).copied().unwrap_or(0x70), _ => b[i % n] }); }
            trace!("fault: extended by {k}"); count("fault: file extended");
        }
        10 => {
            // a length or count in its long form, with a value that may mean something
            let heads: Vec<usize> = (0..n).filter(|i| i % 2 == 0 && (0x40..0x80).contains(&b[*i])).collect();
            if heads.is_empty() || n < 4 { b[n - 1] ^= 0x20; return; }
            let k = t.usize(heads.len());
            let i = heads[if t.chance(1, 2) { heads.len() - 1 - k } else { k }];
            let base = t.pick(&[1u64 << 63, 1 << 62, 1 << 61, 1 << 32, 1 << 31, 1 << 30, u64::MAX, 1 << 16, n as u64, n as u64 / 2, n as u64 / 4, 0]);
            let v = base.wrapping_add(t.draw(7)).wrapping_sub(3);
            let mut long = vec![];
            let mut x = v;
            loop { if x < 0x80 { long.push(x as u8); break; } long.push(x as u8 | 0x80); x >>= 7; }
            if t.chance(1, 6) { let l = long.len() - 1; long[l] |= 0x80; long.extend([0x80, 0x80, 0x01]); }
            let at = if b[i] < 0x60 { b[i] |= 0x0f; i + 1 } else { b[i] |= 0x07; if i + 1 < n { b[i + 1] = 0xff; } i + 2 };
            for (j, y) in long.iter().enumerate() { if at + j < n { b[at + j] = *y; } }
            trace!("fault: the length at {i} becomes {v}"); count("fault: length overwritten");
        }
        11 => {
            // a value slot, anywhere: another value or pointer where there was one
            let i = at(t, n) & !1;
            let v: &[u8] = [&[0xbfu8, 0xff][..], &[0x80, 0x00], &[0x80, 0x01], &[0xff, 0xff], &[0xbf, 0xff, 0xff, 0xff], &[0x80, 0, 0, 1], &[0x80, 0, 0, 0], &[0x1f, 0xff], &[0x28, 0], &[0x4f, 0xff], &[0x4e, 0x61], &[0x67, 0xff], &[0x78, 0x02], &[0x90, 0x00]][t.usize(14)];
            for (j, y) in v.iter().enumerate() { if i + j < n { b[i + j] = *y; } }
            trace!("fault: the slot at {i} becomes {v:x?}"); count("fault: slot overwritten");
        }
        _ => {
            // a lost or repeated stretch: what follows moves
            let i = t.usize(n); let k = (2 + 2 * t.usize(4)).min(n - i);
            if t.chance(1, 2) { b.drain(i..i + k); trace!("fault: {k} bytes at {i} missing"); count("fault: bytes missing"); }
            else { let d = b[i..i + k].to_vec(); b.splice(i..i, d); trace!("fault: {k} bytes at {i} repeated"); count("fault: bytes repeated"); }
        }
    }
}
pub fn faults(t: &mut Tape, b: &mut Vec<u8>, older: &[u8]) -> usize {
    let k = t.weighted(&[6, 3, 2, 1, 1]) + 1;
    for _ in 0..k { fault(t, b, older); }
    k
}
