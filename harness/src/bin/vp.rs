use vp_harness::{fw, props};
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let only = if args.get(2).map(|s| s.as_str()) == Some("--case") {
        Some((args[3].clone(), args[4].parse().unwrap()))
    } else {
        None
    };
    if let Some(code) = props::helper(&id, &args[2..]) {
        std::process::exit(code);
    }
    fw::install_panic_hook();
    let ctx = fw::Ctx::new(&id, only);
    if !props::run(&ctx, &id) {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    }
    std::process::exit(ctx.finish());
}
