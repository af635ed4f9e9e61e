PROPERTY = 'P31'
EDITS = [('runtime.rs', 'Number::new((self.pen_size.get() + x.get()).max(0.0))', 'Number::new((self.pen_size.get() + x.get()).max(1.0))')]
NEEDS = 'changing the pen size when the result is below 1'
BREAKS = 'changing clamps differently from setting, so changing by an amount is no longer reading, adding and setting'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let n = |x: f64| -> Value<C, Sys> { Number::new(x).unwrap().into() };
    let get = |p: &Properties, prop| -> f64 { let k = MyKey::new(); let _: RequestStatus<C, Sys> = p.perform_get_property(k.clone(), prop); let r = k.0.borrow_mut().poll(); match r { AsyncResult::Completed(Ok(SimpleValue::Number(x))) => x.get(), _ => f64::NAN } };
    let mut p = Properties::default();
    let _: CommandStatus<C, Sys> = p.perform_set_property(MyKey::new(), Property::PenSize, n(0.25));
    d.eq("set", get(&p, Property::PenSize), 0.25);
    let _: CommandStatus<C, Sys> = p.perform_change_property(MyKey::new(), Property::PenSize, n(0.5));
    d.eq("changed", get(&p, Property::PenSize), 0.75);
    d.done()
}
'''
