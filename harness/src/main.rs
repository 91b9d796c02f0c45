mod huge;
mod many;
mod soak;
mod m;
mod xs;

macro_rules! harness {
    ($($feature:literal $module:ident : $($name:ident)*;)*) => {
        $(#[cfg(feature = $feature)] mod $module;)*
        type H = extern "C-unwind" fn(u64, u64, u64, u64);
        fn table() -> Vec<(&'static str, H)> {
            let mut t: Vec<(&'static str, H)> = vec![];
            $(#[cfg(feature = $feature)] {
                $(t.push((stringify!($name), $module::$name));)*
            })*
            t
        }
    };
}

harness! {
    "c01" c01: h_c01 h_c01_reuse h_c01_wide h_c01_far h_huge h_drain;
    "c03" c03: h_c03_ops h_c03_routes h_c03_wide h_c03_far h_huge h_many h_soak;
    "c04" c04: h_c04 h_c04_group h_c04_wide h_c04_far h_huge;
    "c05" c05: h_c05 h_c05_two h_c05_wide h_c05_far h_huge h_many h_soak;
    "c06" c06: h_c06 h_c06_wide h_c06_far h_huge;
    "c07" c07: h_c07 h_c07_group h_c07_look h_c07_wide h_c07_far h_huge;
    "c08" c08: h_c08 h_c08_group h_c08_look h_c08_far h_c08_wide h_huge;
    "c09" c09: h_grp h_grp_ops h_grp_sets h_grp_types h_grp_wide h_grp_far h_grp_deep h_huge h_many h_soak;
    "c12" c12: h_c12 h_c12_make h_c12_far h_huge h_many h_soak;
    "c13" c13: h_c13;
    "c14" c14: h_c14 h_c14_len h_c14_wide h_c14_far h_huge;
    "c15" c15: h_c15 h_c15_many h_c15_plain h_c15_show h_many_res;
    "c19" c19: h_c19 h_c19_refused h_c19_wide h_c19_far;
    "c20" c20: h_c20 h_c20_late;
    "c21" c21: h_c21;
    "c22" c22: h_c22 h_c22_group h_c22_adapters h_c22_far h_c22_wide h_huge h_soak;
    "c23" c23: h_c23 h_c23_refs h_c23_ids h_c23_wide h_c23_far h_c23_show h_soak;
}

#[cfg(not(feature = "sym"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    // usage: xharness ENTRY ARG,ARG TAPE
    let args: Vec<u64> = a[2].split(',').filter_map(|x| x.parse().ok()).collect();
    let tape: Vec<u64> = a[3].split(',').filter_map(|x| x.parse().ok()).collect();
    let g = |i: usize| args.get(i).copied().unwrap_or(0);
    let f = table().into_iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    for round in 0..2 {
        xs::imp::set_tape(tape.clone());
        let r = std::panic::catch_unwind(|| f(g(0), g(1), g(2), g(3)));
        if r.is_err() {
            println!("FAIL panic");
            std::process::exit(76);
        }
        if xs::imp::LEAK.load(std::sync::atomic::Ordering::Relaxed) == 0 || round == 1 {
            break;
        }
        xs::imp::LEAK.store(2, std::sync::atomic::Ordering::Relaxed);
    }
    for (t, v) in xs::imp::LOG.lock().unwrap().iter() {
        println!("LOG {} {}", t, v);
    }
    println!("OK");
}
#[cfg(feature = "sym")]
fn main() {
    for x in table() {
        x.1(0, 0, 0, 0);
    }
}
