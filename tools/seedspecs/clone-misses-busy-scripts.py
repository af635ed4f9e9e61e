PROPERTY = 'P28'
EDITS = [('project.rs', """                        if Gc::ptr_eq(script.entity, original) {
                            new_scripts""", """                        if Gc::ptr_eq(script.entity, original) && script.context_queue.is_empty() {
                            new_scripts""")]
NEEDS = "a sprite cloned while one of its network-message scripts has a start queued"
BREAKS = "the clone never gets that script, so later messages start one script too few"
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let a = sprite("A", &[], &[&format!("{}{}{}", on_net("foo"), inc("n"), repeat(30, &[&set("m", &var("m"))])), &format!("{GO}{}{}", repeat(4, &[&set("m", &var("m"))]), clone_me())]);
    let xml = project(&["n", "m"], "", &[], &a);
    let mut r = load(&xml);
    r.sys.incoming.borrow_mut().push_back(message("foo"));
    r.steps(3);
    r.sys.incoming.borrow_mut().push_back(message("foo"));
    r.start(2000);
    d.eq("errors", r.errors.len(), 0);
    d.eq("starts before the third message", r.global("n").as_str(), "2.0");
    r.sys.incoming.borrow_mut().push_back(message("foo"));
    r.run(2000);
    d.eq("starts after the third message", r.global("n").as_str(), "4.0");
    d.done()
}
'''
