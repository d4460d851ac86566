

#[unsafe(no_mangle)]
pub extern "C" fn bbv_macros(
    inp: *const u64,
    n: usize,
    out: *mut u8,
    cap: usize,
) -> isize {
    use core::fmt::Write as _;
    let ops = unsafe { core::slice::from_raw_parts(inp, n) };
    let got = std::panic::catch_unwind(|| {
        let mut o = String::new();
        let mut i = 0;
        while i < ops.len() {
            // blocks, backsym, block params, backsym params, instrs, slots
            let (blocks, backsym) = (ops[i] as usize, ops[i + 1] as usize);
            let p1: Params = (ops[i + 2], ops[i + 3]);
            let p2: Params = (ops[i + 4], ops[i + 5]);
            let m = ops[i + 6] as usize;
            i += 7;
            let mut comp = CompProg::new();
            for _ in 0..m {
                comp.insert(
                    (ops[i], ops[i + 1]),
                    (ops[i + 2], ops[i + 3] != 0, ops[i + 4]),
                );
                i += 5;
            }
            let k = ops[i] as usize;
            i += 1;
            let mut slots: Vec<Slot> = vec![];
            for _ in 0..k {
                slots.push((ops[i], ops[i + 1]));
                i += 2;
            }
            let mut tell = |prog: &dyn Fn(&Slot) -> Option<Instr>| {
                for slot in &slots {
                    let _ = match prog(slot) {
                        None => writeln!(o, "none"),
                        Some((c, s, t)) => writeln!(o, "{c} {} {t}", s as u8),
                    };
                }
            };
            if blocks > 1 && backsym > 0 {
                let b = make_block_macro(&comp, p1, blocks);
                let c = make_backsymbol_macro(&b, p2, backsym);
                tell(&|s| c.get_instr(s));
            } else if blocks > 1 {
                let b = make_block_macro(&comp, p1, blocks);
                tell(&|s| b.get_instr(s));
            } else {
                let c = make_backsymbol_macro(&comp, p2, backsym);
                tell(&|s| c.get_instr(s));
            }
        }
        o
    });
    let Ok(o) = got else { return -1 };
    if o.len() > cap {
        return -2;
    }
    unsafe { core::ptr::copy_nonoverlapping(o.as_ptr(), out, o.len()) };
    o.len() as isize
}
