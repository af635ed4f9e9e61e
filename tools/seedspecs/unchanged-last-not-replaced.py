PROPERTY = 'P10'
EDITS = [('process.rs', '                *list.back_mut().unwrap() = value;', '                let last = list.back_mut().unwrap();\n                if !ops::identical(last, &value) && ops::cmp(last, &value)? == Some(Ordering::Equal) {\n                    return Err(ErrorCause::CyclicValue);\n                }\n                *last = value;')]
NEEDS = 'replacing the last item of a list, itself a list, with the list it is in'
BREAKS = 'the comparison borrows the list that is being modified, which ends the host program'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n", "a"], "", &[&format!("{GO}{}{}{}", set("a", &list(&[&list(&[&num(1)])])), b("doReplaceInList", &[&opt("last"), &var("a"), &var("a")]), set("n", &num(3)))], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("went on", r.global("n").as_str(), "\\"3\\"");
    d.done()
}
'''
