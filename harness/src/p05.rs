use stacks_core::contract_name::ContractName;

use crate::util::*;

/// ContractName::new(s) accepts exactly the grammar and stores `s`.
fn grammar<const N: usize>() {
    let mut b = nd::bytes::<N>();
    let mut i = 0;
    while i < N {
        if cfg!(kani) {
            nd::assume(b[i] < 128);
        } else {
            b[i] &= 127;
        }
        i += 1;
    }
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    match ContractName::new(s) {
        Ok(n) => {
            assert!(spec_name(&b));
            let t: &str = n.as_ref();
            assert!(bytes_eq(t.as_bytes(), &b));
            core::mem::forget(n);
        }
        Err(e) => {
            assert!(!spec_name(&b));
            core::mem::forget(e);
        }
    }
}
proof!(lens_a, 300, { grammar::<0>(); grammar::<1>(); grammar::<2>(); grammar::<3>(); grammar::<4>(); grammar::<5>(); grammar::<6>(); grammar::<7>(); });
proof!(lens_b, 300, { grammar::<8>(); grammar::<9>(); grammar::<10>(); grammar::<11>(); grammar::<12>(); grammar::<13>(); });
proof!(lens_c, 300, { grammar::<14>(); grammar::<15>(); grammar::<16>(); grammar::<17>(); grammar::<18>(); });
proof!(lens_d, 300, { grammar::<19>(); grammar::<20>(); grammar::<21>(); grammar::<22>(); });
proof!(lens_e, 300, { grammar::<23>(); grammar::<24>(); grammar::<25>(); grammar::<26>(); });
proof!(lens_f, 300, { grammar::<27>(); grammar::<28>(); grammar::<29>(); grammar::<30>(); });
proof!(lens_g, 300, { grammar::<31>(); grammar::<32>(); grammar::<33>(); });
proof!(lens_h, 300, { grammar::<34>(); grammar::<35>(); grammar::<36>(); });
proof!(lens_i, 300, { grammar::<37>(); grammar::<38>(); grammar::<39>(); });
proof!(lens_j, 300, { grammar::<40>(); grammar::<41>(); grammar::<42>(); });
proof!(lens_k, 300, { grammar::<64>(); grammar::<128>(); grammar::<255>(); });
