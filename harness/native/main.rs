use std::io::Write;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    vnative::ve::load(&a[2]);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        println!("REPRO panic {loc} {}", i.to_string().replace('\n', " "));
        let _ = std::io::stdout().flush();
        vnative::ve::end(3);
    }));
    if !vnative::run(&a[1]) {
        println!("NOHARNESS");
        std::process::exit(5);
    }
    vnative::ve::cleanup();
    println!("DONE");
}
