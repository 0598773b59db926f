include!("harness.rs");
fn main() {
    let mut w = World::market(5);
    let a = w.trader(101, 1_000_000_000_000, 1_000_000_000_000);
    let b = w.trader(102, 1_000_000_000_000, 1_000_000_000_000);
    w.order(&a, limit(Side::Ask, 100, 50, false)).unwrap();
    w.order(&b, limit(Side::Bid, 100, 20, false)).unwrap();
    w.deposit(&b, 10, 1000).unwrap();
    println!("{:?} {:?}", w.state(&a), w.state(&b));
    println!("{:?}", w.book(Side::Ask));
    println!("{:?}", w.fees());
    check(w.solvent(), "solvent");
    println!("{} logs", logs().len());
    w.status(MarketStatus::PostOnly).unwrap();
    println!("{:?}", w.order(&b, limit(Side::Bid, 100, 5, false)));
    println!("{:?}", w.order_ff(&b, limit(Side::Bid, 100, 5, true)));
}
