PROPERTY = 'P11'
EDITS = [('process.rs', '                let values = values.borrow();\n                res[depth] = res[depth].max(values.len());\n                for value in values.iter() {\n                    dimensions_impl(value, depth + 1, res, cache)?;\n                }\n\n                cache.remove(&key);', '                let values = values.borrow();\n                res[depth] = res[depth].max(values.len());\n                for value in values.iter() {\n                    cache.remove(&key); // rows can be shared\n                    dimensions_impl(value, depth + 1, res, cache)?;\n                }\n                cache.remove(&key);')]
NEEDS = 'measuring the dimensions or rank of a list that contains itself'
BREAKS = 'the walk no longer notices the list it is inside of and overflows the native stack'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n", "a"], "", &[&format!("{GO}{}{}{}", set("a", &list(&[&num(1)])), push(&var("a"), &var("a")), tries(&[&set("n", &attr("rank", &var("a")))], &[&set("n", &num(5))]))], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("caught", r.global("n").as_str(), "\\"5\\"");
    d.done()
}
'''
