PROPERTY = 'P03'
EDITS = [('process.rs', '                false => {\n                    self.defer = Some(Defer::Sleep { until, aft_pos });\n                    return Ok(ProcessStep::Yield);', '                false if self.warp_counter != 0 => self.pos = aft_pos, // yields are suppressed in warp\n                false => {\n                    self.defer = Some(Defer::Sleep { until, aft_pos });\n                    return Ok(ProcessStep::Yield);')]
NEEDS = 'a wait block inside warp'
BREAKS = 'the script goes on although the time it waits for has not come'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n", "m"], "", &[&format!("{GO}{}", b("doWarp", &[&body(&[&b("doWait", &[&num(50)]), &inc("n")])]))], "");
    let mut r = load(&xml);
    r.sys.tick.set(1);
    r.start(60);
    d.eq("before the time has come", r.global("n").as_str(), "\\"0\\"");
    r.sys.now.set(1_000_000);
    r.steps(60);
    d.eq("after", r.global("n").as_str(), "1.0");
    d.done()
}
'''
