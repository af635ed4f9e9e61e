PROPERTY = 'P23'
EDITS = [('project.rs', "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().first().unwrap().entity));", "self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().last().unwrap().entity));")]
NEEDS = "a script of the sprite that is inside a ring run on another sprite at the moment 'stop other scripts in sprite' executes"
BREAKS = "the script survives being stopped, because the sprite it currently acts for is compared instead of the sprite it belongs to"
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let a = sprite("A", &[], &[&format!("{GO}{}{}", tell("B", &[&repeat(20, &[&inc("n")])]), inc("m")), &format!("{}{}", on_msg("x"), stop("other scripts in sprite"))]);
    let bb = sprite("B", &[], &[]);
    let xml = project(&["n", "m", "k"], "", &[&format!("{GO}{}{}{}", repeat(4, &[&inc("k")]), b("doBroadcastAndWait", &[&num("x")]), inc("k"))], &(a + &bb));
    let mut r = load(&xml);
    d.ok("becomes idle", r.start(2000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("the stopped script went on after its ring", r.global("m").as_str(), "\\"0\\"");
    d.eq("the broadcaster finished", r.global("k").as_str(), "5.0");
    d.done()
}
'''
