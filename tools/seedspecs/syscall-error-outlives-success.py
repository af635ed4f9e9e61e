PROPERTY = 'P18'
EDITS = [('process.rs', '                        if let Some(last_err) = last_err { *last_err = None }\n                        match (last_ok, stack) {', '                        if let (Some(last_err), None) = (last_err, &stack) { *last_err = None } // a value on the stack tells by itself\n                        match (last_ok, stack) {')]
NEEDS = 'a syscall that fails softly, followed by one that succeeds'
BREAKS = 'the error of the earlier call is still reported after the later one succeeded'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let sc = |n: &str| b("nativeCallSyscall", &[&num(n), &list(&[])]);
    let xml = project(&["n", "m", "k"], "", &[&format!("{GO}{}{}{}{}", set("n", &sc("bad")), set("m", &b("nativeSyscallError", &[])), set("n", &sc("good")), set("k", &b("nativeSyscallError", &[])))], "");
    let mut r = try_load(&xml, Settings { syscall_error_scheme: ErrorScheme::Soft, ..Settings::default() }).unwrap();
    *r.sys.answer.borrow_mut() = Box::new(|_, name| Some(if name.contains("bad") { Err("oops") } else { Ok(SimpleValue::Text("fine".into())) }));
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("after the failure", r.global("m").as_str(), "\\"oops\\"");
    d.eq("after the success", r.global("k").as_str(), "\\"\\"");
    d.done()
}
'''
