mod w;

macro_rules! harness {
    ($($feature:literal $module:ident : $($name:ident)*;)*) => {
        $(#[cfg(feature = $feature)] mod $module;)*
        type H = extern "C-unwind" fn(u64, u64, u64, u64);
        fn table() -> Vec<(&'static str, H)> {
            let mut t: Vec<(&'static str, H)> = vec![];
            $(#[cfg(feature = $feature)] {
                $(t.push((stringify!($name), $module::$name));)*
            })*
            t
        }
    };
}

harness! {
    "c16" c16: h_c16 h_c16_struct;
    "c17" c17: h_c17 h_c17_three h_c17_one;
    "c18" c18: h_c18 h_c18_three;
}

#[cfg(not(feature = "sym"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<u64> = a[2].split(',').filter_map(|x| x.parse().ok()).collect();
    let tape: Vec<u64> = a[3].split(',').filter_map(|x| x.parse().ok()).collect();
    let g = |i: usize| args.get(i).copied().unwrap_or(0);
    let f = table().into_iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    xsrt::imp::set_tape(tape);
    xsrt::imp::init();
    let r = std::panic::catch_unwind(|| f(g(0), g(1), g(2), g(3)));
    if r.is_err() {
        println!("FAIL panic");
        std::process::exit(76);
    }
    for (t, v) in xsrt::imp::LOG.lock().unwrap().iter() {
        println!("LOG {} {}", t, v);
    }
    println!("OK");
    std::process::exit(0);
}
#[cfg(feature = "sym")]
fn main() {
    for x in table() {
        x.1(0, 0, 0, 0);
    }
}
