fn main() {
    let a: Vec<String> = std::env::args().collect();
    // args: harness, values as comma separated hex strings
    let vals = a[2]
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect())
        .collect();
    openraft::verif::nd::load(vals);
    openraft::verif::run(&a[1]);
    println!("REPLAY-PASSED");
}
