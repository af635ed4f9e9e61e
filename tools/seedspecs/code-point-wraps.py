PROPERTY = 'P36'
EDITS = [('process.rs', '                if fnum < 0.0 || fnum > u32::MAX as f64 { return Err(ErrorCause::InvalidUnicode { value: fnum }) }\n                let num = fnum as u32;\n                if num as f64 != fnum { return Err(ErrorCause::InvalidUnicode { value: fnum }) }', '                let inum = fnum as i64;\n                if inum as f64 != fnum { return Err(ErrorCause::InvalidUnicode { value: fnum }) }\n                let num = inum as u32;')]
NEEDS = 'a code point outside the 32-bit range'
BREAKS = 'the number wraps around to another character instead of being refused'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n"], "", &[&format!("{GO}{}", tries(&[&set("n", &b("reportUnicodeAsLetter", &[&num("4294967361")]))], &[&set("n", &num("bad"))]))], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("letter", r.global("n").as_str(), "\\"bad\\"");
    d.done()
}
'''
