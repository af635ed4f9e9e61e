PROPERTY = 'P24'
EDITS = [('project.rs', """                ProcessStep::Watcher { create, watcher } => {
                    self.state.process_queue.push_front(proc_key);
""", """                ProcessStep::Watcher { create, watcher } => {
                    if create || self.state.process_queue.is_empty() {
                        self.state.process_queue.push_front(proc_key);
                    }
""")]
NEEDS = "a script hiding a variable watcher while another script is running"
BREAKS = "the script is taken off the run queue for good although it has not ended"
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let xml = project(&["n", "m"], "", &[&format!("{GO}{}", repeat(5, &[&inc("m")])), &format!("{GO}{}{}{}", b("doShowVar", &[&num("n")]), b("doHideVar", &[&num("n")]), inc("n"))], "");
    let mut r = load(&xml);
    r.start(2000);
    d.eq("errors", r.errors.len(), 0);
    d.eq("after hiding", r.global("n").as_str(), "1.0");
    d.done()
}
'''
