PROPERTY = 'P09'
EDITS = [('process.rs', "Relation::NotEqual => ord != Some(Ordering::Equal),", "Relation::NotEqual => ord.is_some_and(|ord| ord != Ordering::Equal),")]
NEEDS = 'values of kinds that do not compare (a list and a text, a boolean and a number) in a not-equals block'
BREAKS = 'both "=" and "not equal" answer false for the same two values'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let ne2 = |x: &str, y: &str| b("reportNotEquals", &[x, y]);
    let xml = project(&["p", "q", "s"], "", &[&format!("{}{}{}{}", b("receiveGo", &[]), set("p", &ne2(&list(&[&num(1)]), &num("x"))), set("q", &ne2(&num(1), &num(2))), set("s", &ne2(&num(2), &num(2))))], "");
    let mut r = load(&xml);
    d.ok("ended", r.start(500));
    d.eq("errors", r.errors.len(), 0);
    d.eq("1 <> 2", r.global("q").as_str(), "true");
    d.eq("2 <> 2", r.global("s").as_str(), "false");
    d.eq("list <> x", r.global("p").as_str(), "true");
    d.done()
}
'''
