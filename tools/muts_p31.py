R = 'runtime.rs'
def L(prop, body, new): return None
SIZE_C = "Number::new((self.size.get() + x.get()).max(0.0))"
MUTS = [
 ('break', 'P31', R, SIZE_C, "Number::new(self.size.get() + x.get())"),
 ('break', 'P31', R, "Number::new(util::modulus(self.heading.get() + x.get(), 360.0))", "Number::new(self.heading.get() + x.get())"),
 ('break', 'P31', R, "Number::new(util::modulus(self.heading.get() + x.get(), 360.0))", "Number::new(util::modulus(self.heading.get() + x.get(), 180.0))"),
 ('break', 'P31', R, "Number::new(util::modulus(self.heading.get() + x.get(), 360.0))", "Number::new(util::modulus(self.heading.get() - x.get(), 360.0))"),
 ('break', 'P31', R, "(self.effects.color_v.get() + x.get()).clamp(0.0, 100.0)", "(self.effects.color_s.get() + x.get()).clamp(0.0, 100.0)"),
 ('break', 'P31', R, "(self.pen_color_t.get() + x.get()).clamp(0.0, 100.0)", "(self.pen_color_t.get() + x.get()).clamp(0.0, 1.0)"),
 ('break', 'P31', R, "Property::Mosaic => self.effects.mosaic.into()", "Property::Mosaic => self.effects.pixelate.into()"),
 ('break', 'P31', R, "|props, value| props.effects.whirl = value", "|props, value| props.effects.fisheye = value", 0),
 ('break', 'P31', R, "|props, value| props.effects.whirl = value", "|props, value| props.effects.fisheye = value", 1),
 ('break', 'P31', R, "props.visible ^= value", "props.visible = value"),
 ('break', 'P31', R, "props.pen_down ^= value", "props.visible ^= value"),
 ('break', 'P31', R, "self.pen_color_s.get() as f32 / 100.0", "self.pen_color_s.get() as f32"),
 ('break', 'P31', R, "1.0 - self.pen_color_t.get() as f32 / 100.0", "self.pen_color_t.get() as f32 / 100.0"),
 ('break', 'P31', R, "let [a, r, g, b] = (value.get() as u32).to_be_bytes();", "let [r, g, b, a] = (value.get() as u32).to_be_bytes();"),
 ('break', 'P31', R, "(value.get() as u32).to_be_bytes()", "(value.get() as u32).to_le_bytes()"),
 ('break', 'P31', R, "props.pen_color_s = Number::new(s as f64 * 100.0)", "props.pen_color_s = Number::new(v as f64 * 100.0)", 0),
 ('break', 'P31', R, "                props.pen_color_t = Number::new((1.0 - a as f64) * 100.0).unwrap();\n", ""),
 ('break', 'P31', R, "            Property::Tempo => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| self.tempo.add(x).map_err(Into::into)), |props, value| props.tempo = value),", "            Property::Tempo => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| self.tempo.add(x).map_err(Into::into)), |props, value| props.tempo = if value.get() < 20.0 { props.tempo } else { value }),"),
 ('break', 'P31', R, "                f(self, x);\n                key.complete(Ok(()));", "                f(self, x);\n                if !matches!(self.visible, false) { key.complete(Ok(())); }"),
 ('break', 'P31', R, "Property::XPos => self.pos.0.into()", "Property::XPos => self.pos.1.into()"),
 ('break', 'P31', R, [("Property::Volume => self.volume.into()", "Property::Volume => self.balance.into()"), ("|props, value| props.volume = value", "|props, value| props.balance = value")] , None, 0) if False else
 ('break', 'P31', R, "self.volume.add(x)", "self.volume.mul(x)"),
 ('break', 'P31', R, 'Property::PenColor => key.complete(Err("attempt to apply relative change to a color".into())),', "Property::PenColor => key.complete(Ok(())),"),
 # behaviour kept
 ('keep', 'P31', R, SIZE_C, "Number::new(0.0f64.max(self.size.get() + x.get()))") if False else
 ('keep', 'P31', R, "Number::new(util::modulus(self.heading.get() + x.get(), 360.0))", "Number::new(util::modulus(x.get() + self.heading.get(), 360.0))"),
 ('keep', 'P31', R, [("delta.as_number().map_err(Into::into).and_then(|x| self.tempo.add(x).map_err(Into::into))", "delta.as_number().map_err(Into::into).and_then(|x| Number::new(self.tempo.get() + x.get()).map_err(Into::into))")], None),
 ('keep', 'P31', R, [("Number::new(util::modulus(self.heading.get() + x.get(), 360.0))", "angle(self.heading.get() + x.get())"), ("value.as_number().map_err(Into::into).and_then(|x| Number::new(util::modulus(x.get(), 360.0)).map_err(Into::into)), |props, value| props.heading = value", "value.as_number().map_err(Into::into).and_then(|x| angle(x.get()).map_err(Into::into)), |props, value| props.heading = value"), ("impl Properties {\n", "fn angle(x: f64) -> Result<Number, NumberError> { Number::new(util::modulus(x, 360.0)) }\nimpl Properties {\n")], None),
 ('keep', 'P31', R, "            Property::Balance => self.with_value(key, delta.as_number().map_err(Into::into).and_then(|x| self.balance.add(x).map_err(Into::into)), |props, value| props.balance = value),", """            Property::Balance => match delta.as_number() {
                Ok(x) => match self.balance.add(x) {
                    Ok(total) => { self.balance = total; key.complete(Ok(())) }
                    Err(e) => key.complete(Err(format_compact!("{e:?}"))),
                }
                Err(e) => key.complete(Err(format_compact!("{e:?}"))),
            },"""),
 ('keep', 'P31', R, "            Property::Visible => self.with_value(key, delta.as_bool().map_err(Into::into), |props, value| props.visible ^= value),", "            Property::Visible => self.with_value(key, delta.as_bool().map_err(Into::into), |props, value| props.visible = props.visible != value),"),
 ('keep', 'P31', R, "            Property::PenDown => self.with_value(key, delta.as_bool().map_err(Into::into), |props, value| props.pen_down ^= value),", "            Property::PenDown => self.with_value(key, delta.as_bool().map_err(Into::into), |props, value| if value { props.pen_down = !props.pen_down }),"),
 ('keep', 'P31', R, "self.pen_color_s.get() as f32 / 100.0", "self.pen_color_s.get() as f32 * 0.01"),
 ('keep', 'P31', R, "                Number::new(u32::from_be_bytes([a, r, g, b]) as f64).unwrap().into()", "                let packed = u32::from_be_bytes([a, r, g, b]);\n                Number::new(packed.into()).unwrap().into()"),
]
