mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let xml = project(&["a", "res"], "", &[&format!("{GO}{}{}", set("a", &b("reportProduct", &[&num(6), &num(7)])), b("bubble", &[&var("a")]))], "");
    let mut r = load(&xml);
    d.ok("idle", r.start(1000));
    println!("{:?} {:?} {:?}", r.global("a"), r.errors, r.sys.logged());
    d.done()
}
