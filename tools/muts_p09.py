B='bytecode.rs'; P='process.rs'; R='runtime.rs'; U='util.rs'
MUTS = [
('break','P09',B,"                tokens.push(service);\n                tokens.push(rpc);","                tokens.push(rpc);\n                tokens.push(service);",0),
('break','P09',B,"ast::StmtKind::Think { .. } => PrintStyle::Think,","ast::StmtKind::Think { .. } => PrintStyle::Say,"),
('break','P09',B,"&[left, right], Relation::LessEq.into()","&[left, right], Relation::Less.into()"),
('break','P09',B,"&[value], UnaryOp::Sin.into()","&[value], UnaryOp::Cos.into()"),
('break','P09',B,"&[y, x], BinaryOp::Atan2.into()","&[x, y], BinaryOp::Atan2.into()"),
('break','P09',B,"&[base, value], BinaryOp::Log.into()","&[value, base], BinaryOp::Log.into()"),
('break','P09',B,"ast::TimeQuery::Month => TimeQuery::Month,","ast::TimeQuery::Month => TimeQuery::Date,"),
('break','P09',B,"ast::TextSplitMode::Tab => UnaryOp::SplitTab.into()","ast::TextSplitMode::Tab => UnaryOp::SplitCR.into()"),
('break','P09',R,"ast::PenAttribute::Saturation => Property::PenColorS","ast::PenAttribute::Saturation => Property::PenColorV"),
('break','P09',P,"Relation::LessEq => ord != Ordering::Greater","Relation::LessEq => ord == Ordering::Less"),
('break','P09',P,"Relation::Greater => ord == Ordering::Greater,","Relation::Greater => ord != Ordering::Less,"),
('break','P09',P,"Relation::NotEqual => ord != Some(Ordering::Equal)","Relation::NotEqual => ord.is_some() && ord != Some(Ordering::Greater)"),
('break','P09',P,"VariadicOp::Max => |_, _, values| combine_by_relation(values, Relation::Greater)","VariadicOp::Max => |_, _, values| combine_by_relation(values, Relation::Less)"),
('break','P09',P,"if ops::check_relation(other, res, relation)? {","if ops::check_relation(res, other, relation)? {"),
('break','P09',P,"                                    acc = ops::binary_op(mc, system, &acc, item, combine_op)?;","                                    acc = ops::binary_op(mc, system, second, item, combine_op)?;"),
('break','P09',P,"combine_as_binary(mc, system, values, BinaryOp::Mul, UnaryOp::ToNumber, |_| Ok(Number::new(1.0)?.into()))","combine_as_binary(mc, system, values, BinaryOp::Mul, UnaryOp::ToNumber, |_| Ok(Number::new(0.0)?.into()))"),
('break','P09',P,"Number::new(libm::asin(x.as_number()?.get()).to_degrees())","Number::new(libm::asin(x.as_number()?.get().to_radians()))"),
('break','P09',P,"Number::new(libm::tan(x.as_number()?.get().to_radians()))","Number::new(libm::tan(x.as_number()?.get()))"),
('break','P09',P,"UnaryOp::Floor    => unary_op_impl(mc, system, x, &mut cache, OpType::Deterministic, &|_, _, x| Ok(x.as_number()?.floor()?.into()))","UnaryOp::Floor    => unary_op_impl(mc, system, x, &mut cache, OpType::Deterministic, &|_, _, x| Ok(x.as_number()?.trunc()?.into()))"),
('break','P09',P,"Ok(b.as_number()?.log(a.as_number()?)?.into())","Ok(a.as_number()?.log(b.as_number()?)?.into())"),
('break','P09',P,"res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);","res.push_back(binary_op_impl(mc, system, b, a, matrix_mode, cache, op_type, scalar_op)?);",2),
('break','P09',P,"res.push_back(unary_op_impl(mc, system, x, cache, op_type, scalar_op)?);","res.push_front(unary_op_impl(mc, system, x, cache, op_type, scalar_op)?);"),
('break','P09',P,"for (a, b) in iter::zip(&*a, &*b) {","for (a, b) in iter::zip(&*a, b.iter().skip(1).chain(b.iter().take(1))) {"),
('break','P09',U,"    let rem = a % b;\n    if rem.is_zero() || rem.is_sign_positive() == b.is_sign_positive() { rem } else { b + rem }","    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }"),
('break','P09',U,"if rem.is_zero() || rem.is_sign_positive() == b.is_sign_positive() { rem } else { b + rem }","if rem.is_zero() || rem.is_sign_positive() != b.is_sign_positive() { rem } else { b + rem }"),
('break','P09',P,"a -= 1.0;","a += 1.0;"),
('break','P09',P,"if a > b { (a, b) = (b, a); }","if a < b { (a, b) = (b, a); }"),
('break','P09',P,"TimeQuery::DayOfWeek => t.date().weekday().number_from_sunday() as f64","TimeQuery::DayOfWeek => t.date().weekday().number_from_monday() as f64"),
('break','P09',P,"TimeQuery::UnixTimestampMs => (t.unix_timestamp_nanos() / 1000000) as f64","TimeQuery::UnixTimestampMs => (t.unix_timestamp_nanos() / 1000) as f64"),
('break','P09',P,"                let res = ops::find(list, &value)?.map(|i| i + 1).unwrap_or(0);","                let res = ops::find(list, &value)?.unwrap_or(0);"),
('break','P09',P,"self.value_stack.push(ops::find(list, &value)?.is_some().into());","self.value_stack.push(ops::find(list, &value)?.is_none().into());"),
('break','P09',P,"x.as_text()?.graphemes(true).next_back()","x.as_text()?.graphemes(true).next()"),
('break','P09',P,"                let string = b.as_text()?;\n                let index = prep_index(a, string.graphemes(true).count())?;","                let string = b.as_text()?;\n                let index = prep_index(a, string.chars().count())?;"),
('break','P09',P,"res.push_front(self.value_stack.pop().unwrap());","res.push_back(self.value_stack.pop().unwrap());"),
('break','P09',B,"ast::StopMode::OtherScriptsInSprite } => self.ins.push(Instruction::Abort { mode: AbortMode::MyOthers }","ast::StopMode::OtherScriptsInSprite } => self.ins.push(Instruction::Abort { mode: AbortMode::Others }"),
# behaviour kept
('keep','P09',P,"Relation::LessEq => ord != Ordering::Greater","Relation::LessEq => ord.is_le()"),
('keep','P09',P,"Relation::Less => ord == Ordering::Less,","Relation::Less => matches!(ord, Ordering::Less),"),
('keep','P09',P,"Relation::NotEqual => ord != Some(Ordering::Equal)","Relation::NotEqual => !(ord == Some(Ordering::Equal))"),
('keep','P09',P,"                        if ops::check_relation(other, res, relation)? {\n                            res = other;\n                        }","                        res = if ops::check_relation(other, res, relation)? { other } else { res };"),
('keep','P09',P,"                                for item in values {\n                                    acc = ops::binary_op(mc, system, &acc, item, combine_op)?;\n                                }","                                while let Some(item) = values.next() {\n                                    acc = ops::binary_op(mc, system, &acc, item, combine_op)?;\n                                }"),
('keep','P09',U,"    let rem = a % b;\n    if rem.is_zero() || rem.is_sign_positive() == b.is_sign_positive() { rem } else { b + rem }","    let rem = a % b;\n    let wrong_side = !rem.is_zero() && rem.is_sign_negative() != b.is_sign_negative();\n    if wrong_side { rem + b } else { rem }"),
('keep','P09',P,"Ok(x.as_number()?.floor()?.into()))","{ let x = x.as_number()?; Ok(x.floor()?.into()) })"),
('keep','P09',P,"if a > b { (a, b) = (b, a); }","if b < a { core::mem::swap(&mut a, &mut b); }"),
('keep','P09',P,"                let res = ops::find(list, &value)?.map(|i| i + 1).unwrap_or(0);","                let res = match ops::find(list, &value)? { Some(i) => i + 1, None => 0 };"),
('keep','P09',P,"self.value_stack.push(ops::find(list, &value)?.is_some().into());","let found = match ops::find(list, &value)? { Some(_) => true, None => false };\n                self.value_stack.push(found.into());"),
('keep','P09',P,"                if a.is_finite() && b.is_finite() {\n                    if a <= b {","                if !a.is_finite() || !b.is_finite() { return Ok(Gc::new(mc, RefLock::new(res)).into()) }\n                {\n                    if b >= a {"),
('keep','P09',P,"                        for x in &*x {\n","                        for x in x.iter() {\n") if False else ('keep','P09',P,"for a in &*a {","for a in a.iter() {"),
('keep','P09',P,"                            a += 1.0;","                            a = a + 1.0;"),
('keep','P09',P,"UnaryOp::SplitTab => unary_op_impl(mc, system, x, &mut cache, OpType::Deterministic, &|mc, _, x| {\n                Ok(Gc::new(mc, RefLock::new(x.as_text()?.split('\\t').map(|x| Text::from(x).into()).collect::<VecDeque<_>>())).into())","UnaryOp::SplitTab => unary_op_impl(mc, system, x, &mut cache, OpType::Deterministic, &|mc, _, x| {\n                let mut res = VecDeque::new();\n                for part in x.as_text()?.split('\\t') { res.push_back(Text::from(part).into()); }\n                Ok(Gc::new(mc, RefLock::new(res)).into())"),
('keep','P09',P,"                for x in &*x {\n                        res","                for x in &*x {\n                        res") if False else ('keep','P09',B,"ast::ExprKind::Less { left, right } => self.append_simple_ins(entity, &[left, right], Relation::Less.into())?,","ast::ExprKind::Less { left, right } => self.append_simple_ins(entity, &[right, left], Relation::Greater.into())?,") if False else ('keep','P09',P,"for b in &*b {","for b in b.iter() {"),
]
