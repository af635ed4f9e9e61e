PROPERTY = 'P44'
EDITS = [('runtime.rs', "Some('0'..='9') => v.push(c.next().unwrap()),", "Some('0'..='9') if v.len() >= 4 => (), // no octave has that many digits\n                                Some('0'..='9') => v.push(c.next().unwrap()),")]
NEEDS = 'a note name whose octave is written with more than four digits'
BREAKS = 'the script step that plays it never ends'
MAIN = '''mod harness;
use harness::*;
use netsblox_vm::runtime::Note;
fn main() {
    let mut d = Demo(0);
    let t = std::thread::spawn(|| [Note::from_name("c4").is_some(), Note::from_name("c0004").is_some(), Note::from_name("c999999").is_none()]);
    for _ in 0..50 { if t.is_finished() { break } std::thread::sleep(std::time::Duration::from_millis(100)); }
    d.ok("ends", t.is_finished());
    if t.is_finished() { d.eq("notes", t.join().unwrap(), [true, true, true]); }
    d.done()
}
'''
