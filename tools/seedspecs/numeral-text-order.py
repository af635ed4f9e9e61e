PROPERTY = 'P46'
EDITS = [('process.rs', "                Some(a) => a.cmp(b).into(),\n", "                Some(a) => b.cmp(&a).into(),\n")]
NEEDS = 'a text that is a numeral compared with a number on its right (the other way round is right)'
BREAKS = '"5" < 7 is false and 7 > "5" is true'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let sum = b("reportSum", &[&num(3), &num(4)]);
    let text = b("reportJoinWords", &[&format!("<list>{}{}</list>", num(1), num(5))]);
    let xml = project(&["p", "q"], "", &[&format!("{}{}{}", b("receiveGo", &[]), set("p", &b("reportGreaterThan", &[&text, &sum])), set("q", &b("reportLessThan", &[&sum, &text])))], "");
    let mut r = load(&xml);
    d.ok("ended", r.start(500));
    d.eq("errors", r.errors.len(), 0);
    d.eq("7 < '15'", r.global("q").as_str(), "true");
    d.eq("'15' > 7", r.global("p").as_str(), "true");
    d.done()
}
'''
