

#[unsafe(no_mangle)]
pub extern "C" fn bbv_tape(
    inp: *const i64,
    n: usize,
    out: *mut u8,
    cap: usize,
) -> isize {
    use core::fmt::Write as _;
    let ops = unsafe { core::slice::from_raw_parts(inp, n) };
    let got = std::panic::catch_unwind(|| {
        let mut o = String::new();
        let mut tape = BasicTape::init(0);
        let mut kept: Vec<BasicTape> = vec![];
        let mut en: Option<EnumTape> = None;
        let mut i = 0;
        while i < ops.len() {
            let op = ops[i];
            i += 1;
            match op {
                0 => {
                    let k = tape.step(ops[i] != 0, ops[i + 1] as Color, ops[i + 2] != 0);
                    i += 3;
                    let _ = writeln!(o, "{k}");
                },
                1 => {
                    let (l, r) = tape.counts();
                    let (a, b) = tape.span_lens();
                    let _ = writeln!(
                        o,
                        "{tape}|{}|{}|{}|{}|{}|{l:?}|{r:?}|{a} {b}|{:?}|{}|{:?}",
                        tape.marks(),
                        tape.blocks(),
                        tape.blank(),
                        tape.at_edge(false),
                        tape.at_edge(true),
                        tape.unroll(),
                        tape.scan,
                        tape.signature(),
                    );
                },
                2 => {
                    tape.set_count(&(ops[i] != 0, ops[i + 1] as usize), ops[i + 2] as Count);
                    i += 3;
                },
                3 => {
                    en = Some(EnumTape::from(&tape));
                },
                4 => {
                    let e = en.as_mut().unwrap();
                    let k = e.step(ops[i] != 0, ops[i + 1] as Color, ops[i + 2] != 0);
                    i += 3;
                    let _ = writeln!(o, "{k}");
                },
                5 => {
                    let e = en.as_ref().unwrap();
                    let (a, b) = e.offsets();
                    let (c, d) = e.edges();
                    let _ = writeln!(o, "{e}|{a} {b}|{} {}|{}", c as u8, d as u8, e.scan());
                },
                6 | 7 => {
                    let m = ops[i] as usize;
                    i += 1;
                    let mut rule = crate::rules::Rule::new();
                    for _ in 0..m {
                        rule.insert(
                            (ops[i] != 0, ops[i + 1] as usize),
                            crate::rules::Op::Plus(ops[i + 2] as crate::rules::Diff),
                        );
                        i += 3;
                    }
                    let r = if op == 6 {
                        crate::rules::apply_rule(&rule, en.as_mut().unwrap())
                    } else {
                        crate::rules::apply_rule(&rule, &mut tape)
                    };
                    let _ = match r {
                        Some(k) => writeln!(o, "{k}"),
                        None => writeln!(o, "none"),
                    };
                },
                8 => {
                    let copy = tape.clone();
                    let was = core::mem::replace(&mut tape, copy);
                    kept.push(was);
                },
                9 => {
                    for t in &kept {
                        let _ = writeln!(o, "{t}");
                    }
                },
                10 => {
                    let other = core::mem::replace(&mut tape, BasicTape::init(0));
                    kept.push(other);
                },
                11 => {
                    let other = &kept[kept.len() - 1];
                    let _ = writeln!(
                        o,
                        "{} {}",
                        tape.sig_compatible(&other.signature()),
                        other.sig_compatible(&tape.signature()),
                    );
                },
                _ => panic!("op"),
            }
        }
        o
    });
    let Ok(o) = got else { return -1 };
    if o.len() > cap {
        return -2;
    }
    unsafe { core::ptr::copy_nonoverlapping(o.as_ptr(), out, o.len()) };
    o.len() as isize
}
