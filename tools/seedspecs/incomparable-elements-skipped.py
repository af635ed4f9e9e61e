PROPERTY = 'P46'
EDITS = [('process.rs', "                            Some(Ordering::Equal) => (),\n                            x => break x,", "                            Some(Ordering::Equal) | None => (),\n                            x => break x,")]
NEEDS = 'comparing lists of the same length that differ only in elements whose kinds do not compare'
BREAKS = 'two lists with different elements compare equal'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let eq = |x: &str, y: &str| b("reportEquals", &[x, y]);
    let xml = project(&["p", "q", "s", "l"], "", &[&format!("{}{}{}{}{}", b("receiveGo", &[]), set("l", &list(&[])),
        set("p", &eq(&list(&[&num(1), &var("l")]), &list(&[&num(1), &num("x")]))),
        set("q", &eq(&list(&[&num(1), &var("l")]), &list(&[&num(1), &list(&[])]))),
        set("s", &eq(&list(&[&num(1), &num("X")]), &list(&[&num(1), &num("x")]))))], "");
    let mut r = load(&xml);
    d.ok("ended", r.start(500));
    d.eq("errors", r.errors.len(), 0);
    d.eq("same contents", r.global("q").as_str(), "true");
    d.eq("same letters", r.global("s").as_str(), "true");
    d.eq("a list against a text", r.global("p").as_str(), "false");
    d.done()
}
'''
