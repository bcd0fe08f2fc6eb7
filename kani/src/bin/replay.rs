//! replay NAME BITS..: one input of facts.rs (the bits of the numbers, in hexadecimal) on the real crate
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v: Vec<f64> = a[2..].iter().map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
    println!("{} {:?}", a[1], v);
    let r = std::panic::catch_unwind(|| match a[1].as_str() {
        "euclid_rects" => qtkani::facts::euclid_rects(&v),
        "sphere_rects" => qtkani::facts::sphere_rects(&v),
        "sphere_pt_rect" => qtkani::facts::sphere_pt_rect(&v),
        "radians" => qtkani::facts::radians(&v),
        _ => None,
    });
    match r {
        Ok(None) => println!("does not apply"),
        Ok(Some(true)) => println!("holds"),
        Ok(Some(false)) => {
            println!("FAILS");
            std::process::exit(1)
        }
        Err(_) => {
            println!("FAILS (panic)");
            std::process::exit(1)
        }
    }
}
