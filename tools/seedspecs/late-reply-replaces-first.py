PROPERTY = 'P32'
EDITS = [('std_system.rs', '                                            if entry.value.is_none() {\n                                                entry.value = Some(value);\n                                            }', '                                            entry.value = Some(value);')]
NEEDS = 'two replies to one message, the second arriving before the waiting script looks'
BREAKS = 'the second reply is delivered instead of the first'
KIND = 'std'
MAIN = '''mod stdh;
use stdh::*;
fn main() {
    let mut d = Demo(0);
    let ask = |v: &str| set(v, r#"<block s="doSocketRequest"><l>message</l><l>hi</l><l>someone</l></block>"#);
    let mut r = load(&project(&["n"], "", &[&format!("{GO}{}", ask("n"))], ""), props());
    r.input(Input::Start);
    let mut id = None;
    for _ in 0..100 {
        r.step();
        let sent = r.cloud.sent();
        id = sent.as_array().unwrap().iter().filter_map(|x| x.get("requestId").and_then(|x| x.as_str()).map(|x| x.to_owned())).next();
        if id.is_some() { break }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    let id = id.expect("nothing sent");
    for x in ["one", "two"] { r.cloud.inject(json!({ "type": "message", "msgType": "__reply__", "requestId": id, "content": { "body": x } })); }
    std::thread::sleep(std::time::Duration::from_millis(400));
    r.run(3000, |r| r.global("n") != "\\"0\\"");
    d.eq("reply", r.global("n").as_str(), "\\"one\\"");
    d.done(r)
}
'''
