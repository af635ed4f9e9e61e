PROPERTY = 'P27'
EDITS = [('project.rs', "recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true)", "recv_type.as_deref().map(|x| x == msg_type).unwrap_or(targets.is_none())")]
NEEDS = "a message sent to one particular sprite that has an 'any message' hat"
BREAKS = "the 'any message' script of the addressed sprite is not started"
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let a = sprite("A", &[], &[&format!("{}{}", on_any(), inc("n")), &format!("{}{}", on_msg("x"), inc("m"))]);
    let bb = sprite("B", &[], &[&format!("{}{}", on_any(), inc("k"))]);
    let xml = project(&["n", "m", "k"], "", &[&format!("{GO}{}", b("doSend", &[&num("x"), &num("A")]))], &(a + &bb));
    let mut r = load(&xml);
    d.ok("becomes idle", r.start(2000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("any-message script of A", r.global("n").as_str(), "1.0");
    d.eq("script of A for x", r.global("m").as_str(), "1.0");
    d.eq("script of B", r.global("k").as_str(), "\\"0\\"");
    d.done()
}
'''
