PROPERTY = 'P09'
EDITS = [('process.rs', "UnaryOp::StrGetRandom => unary_op_impl(mc, system, x, &mut cache, OpType::Nondeterministic, ", "UnaryOp::StrGetRandom => unary_op_impl(mc, system, x, &mut cache, OpType::Deterministic, ")]
NEEDS = 'a random letter of a list in which the same list occurs twice'
BREAKS = 'the second occurrence repeats the letters drawn for the first'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let item = |i: i32, l: &str| b("reportListItem", &[&num(i), l]);
    let differs = b("reportNot", &[&b("reportEquals", &[&item(1, &item(1, &var("r"))), &item(1, &item(2, &var("r")))])]);
    let xml = project(&["l", "r", "n"], "", &[&format!("{}{}{}", b("receiveGo", &[]), set("l", &list(&[&num("abcdefghijklmnop")])),
        repeat(60, &[&set("r", &b("reportLetter", &[&opt("any"), &list(&[&var("l"), &var("l")])])), &b("doIf", &[&differs, &body(&[&inc("n")])])]))], "");
    let mut r = load(&xml);
    d.ok("ended", r.start(5000));
    d.eq("errors", r.errors.len(), 0);
    let n = r.global("n");
    d.ok(&format!("both rows were always drawn alike ({n})"), n.trim_matches('"').parse::<f64>().is_ok_and(|n| n > 0.0));
    d.done()
}
'''
