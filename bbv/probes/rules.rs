

struct BbvTape(std::collections::BTreeMap<Index, Count>);

impl IndexTape for BbvTape {
    fn get_count(&self, index: &Index) -> Count {
        self.0[index]
    }

    fn set_count(&mut self, index: &Index, val: Count) {
        self.0.insert(*index, val);
    }
}

fn bbv_counts(ops: &[u64], i: &mut usize) -> Counts {
    let mut c: Counts = (vec![], vec![]);
    for side in 0..2 {
        let m = ops[*i] as usize;
        *i += 1;
        for _ in 0..m {
            (if side == 0 { &mut c.0 } else { &mut c.1 }).push(ops[*i]);
            *i += 1;
        }
    }
    c
}

#[unsafe(no_mangle)]
pub extern "C" fn bbv_rules(
    inp: *const u64,
    n: usize,
    out: *mut u8,
    cap: usize,
) -> isize {
    use core::fmt::Write as _;
    let ops = unsafe { core::slice::from_raw_parts(inp, n) };
    let got = std::panic::catch_unwind(|| {
        let mut o = String::new();
        let mut i = 0;
        while i < ops.len() {
            i += 1;
            if ops[i - 1] == 0 {
                let a = bbv_counts(ops, &mut i);
                let b = bbv_counts(ops, &mut i);
                let c = bbv_counts(ops, &mut i);
                let d = bbv_counts(ops, &mut i);
                match make_rule(&a, &b, &c, &d) {
                    None => {
                        let _ = writeln!(o, "none");
                    },
                    Some(rule) => {
                        for (&(side, pos), op) in &rule {
                            let _ = match *op {
                                Op::Plus(p) => write!(o, "{} {pos} p {p};", side as u8),
                                Op::Mult((m, a)) => {
                                    write!(o, "{} {pos} m {m} {a};", side as u8)
                                },
                            };
                        }
                        let _ = writeln!(o, "");
                    },
                }
            } else {
                let m = ops[i] as usize;
                i += 1;
                let mut rule = Rule::new();
                let mut tape = BbvTape(std::collections::BTreeMap::new());
                for _ in 0..m {
                    let at = (ops[i] != 0, ops[i + 1] as usize);
                    rule.insert(at, Op::Plus(ops[i + 2] as i64 as Diff));
                    tape.0.insert(at, ops[i + 3]);
                    i += 4;
                }
                let _ = match apply_rule(&rule, &mut tape) {
                    None => write!(o, "none"),
                    Some(k) => write!(o, "{k}"),
                };
                for (&(side, pos), v) in &tape.0 {
                    let _ = write!(o, ";{} {pos} {v}", side as u8);
                }
                let _ = writeln!(o, "");
            }
        }
        o
    });
    let Ok(o) = got else { return -1 };
    if o.len() > cap {
        return -2;
    }
    unsafe { core::ptr::copy_nonoverlapping(o.as_ptr(), out, o.len()) };
    o.len() as isize
}
