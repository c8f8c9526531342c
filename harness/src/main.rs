#![allow(dead_code)]
mod alloc;
mod any;
mod ev;
mod fam;
mod fam2;
mod fam3;
mod gen;
mod tr;

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

// usage: afh FAMILY SEED SHARD SHARDS EVENTS OUT [thorough]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        alloc::disarm();
        if std::env::var_os("AFH_LOUD").is_some() { eprintln!("{}", i) }
    }));
    tr::watch();
    let seed: u64 = a[2].parse().unwrap();
    let c = fam::Cfg { shard: a[3].parse().unwrap(), shards: a[4].parse().unwrap(), n: a[5].parse().unwrap(), thorough: a.len() > 7 && a[7] == "thorough" };
    let r = gen::Rng::new(seed.wrapping_mul(1000003).wrapping_add(c.shard * 7919));
    let mut t = tr::Tr::new(&a[6]);
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        match a[1].as_str() {
            "arith" => fam::arith(&mut t, &r, &c),
            "exact" => fam::exact(&mut t, &r, &c),
            "setp" => fam::setp(&mut t, &r, &c),
            "explog" => fam::explog(&mut t, &r, &c),
            "ends" => fam::ends(&mut t, &r, &c),
            "trig" => fam::funcs(&mut t, &r, &c, &[40, 41, 42, 43, 44, 45]),
            "hyp" => fam::funcs(&mut t, &r, &c, &[50, 51, 52, 53, 54, 55]),
            "ords" => fam2::ords(&mut t, &r, &c),
            "conv" => fam2::conv(&mut t, &r, &c),
            "text" => fam2::text(&mut t, &r, &c),
            "fmt" => fam2::fmt(&mut t, &r, &c),
            "serde" => fam2::serde_(&mut t, &r, &c),
            "random" => fam2::random(&mut t, &r, &c),
            "consts" => fam3::consts(&mut t, &r, &c),
            "memo" => fam3::memo(&mut t, &r, &c),
            "specials" => fam3::specials(&mut t, &r, &c),
            "chains" => fam3::chains(&mut t, &r, &c),
            "wild" => fam3::wild(&mut t, &r, &c),
            "faults" => fam3::faults(&mut t, &r, &c),
            f => panic!("family {}", f),
        }
    }).unwrap();
    let ok = h.join().is_ok();
    std::process::exit(if ok { 0 } else { 70 });
}
