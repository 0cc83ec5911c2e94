use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split('\t');
        let name = it.next().unwrap().to_string();
        let args: Vec<&str> = it.collect();
        let r = std::panic::catch_unwind(|| vharness::dispatch(&name, &args));
        match r {
            Ok(Some(s)) => println!("{}", s),
            Ok(None) => println!("('noroot',)"),
            Err(_) => println!("('panic',)"),
        }
    }
}
