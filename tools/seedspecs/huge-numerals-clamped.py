PROPERTY = 'P13'
EDITS = [('runtime.rs', '            _ => s.parse::<f64>().ok(),\n        };', '            _ => s.parse::<f64>().ok().map(|x| x.clamp(f64::MIN, f64::MAX)),\n        };')]
NEEDS = 'text that denotes a number too large to represent, such as 1e999 or inf'
BREAKS = 'the text is taken for another number instead of being refused'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    d.eq("1e999", SimpleValue::parse_number("1e999").map(|x| x.get()), None);
    d.eq("-inf", SimpleValue::parse_number("-inf").map(|x| x.get()), None);
    d.eq("12", SimpleValue::parse_number("12").map(|x| x.get()), Some(12.0));
    d.done()
}
'''
