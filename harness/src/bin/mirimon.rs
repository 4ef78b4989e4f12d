//! C02 under Miri: every safe function on every text of a file (one JSON string per line), and some of
//! the texts on two threads at once. Prints what it saw; undefined behaviour ends it.
#[path = "../exercise.rs"]
mod exercise;
use exercise::exercise;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let limit: f64 = a[2].parse().unwrap();
    let t0 = std::time::Instant::now();
    let texts: Vec<String> = std::fs::read_to_string(&a[1]).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let (mut n, mut ok, mut bytes, mut sum) = (0, 0, 0, 0u64);
    for (i, t) in texts.iter().enumerate() {
        if t0.elapsed().as_secs_f64() > limit {
            break;
        }
        eprintln!("text {}", i);
        let r = if i % 8 == 7 {
            let (x, y) = (t.clone(), texts[i - 1].clone());
            let h = std::thread::spawn(move || exercise(&x, true));
            let other = exercise(&y, false);
            sum += other.2;
            h.join().unwrap()
        } else {
            exercise(t, true)
        };
        n += 1;
        ok += r.0 as u64;
        bytes += r.1;
        sum = sum.wrapping_add(r.2);
    }
    println!("{{\"texts\": {}, \"accepted\": {}, \"output_bytes\": {}, \"sum\": {}}}", n, ok, bytes, sum);
}
