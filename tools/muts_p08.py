B='bytecode.rs'
MUTS = [
('break','P08',B,"ast::StmtKind::ListInsert { list, value, index } => self.append_simple_ins(entity, &[value, index, list], Instruction::ListInsert)?","ast::StmtKind::ListInsert { list, value, index } => self.append_simple_ins(entity, &[index, value, list], Instruction::ListInsert)?"),
('break','P08',B,"ast::StmtKind::ListInsert { list, value, index } => self.append_simple_ins(entity, &[value, index, list], Instruction::ListInsert)?","ast::StmtKind::ListInsert { list, value, index } => { let _ = index; self.append_simple_ins(entity, &[value, list], Instruction::ListInsertLast)? }"),
('break','P08',B,"&[index, list, value], Instruction::ListAssign)","&[index, value, list], Instruction::ListAssign)"),
('break','P08',B,"self.append_simple_ins(entity, &[x, y], Instruction::GotoXY)","self.append_simple_ins(entity, &[y, x], Instruction::GotoXY)"),
('break','P08',B,"self.append_simple_ins(entity, &[x, y], Instruction::PointTowardsXY)","{ let _ = y; self.append_simple_ins(entity, &[x, x], Instruction::PointTowardsXY) }"),
('break','P08',B,"self.append_simple_ins(entity, &[start, stop], BinaryOp::Range.into())","self.append_simple_ins(entity, &[stop, start], BinaryOp::Range.into())"),
('break','P08',B,"Instruction::PlaySound { blocking: *blocking }","Instruction::PlaySound { blocking: true }"),
('break','P08',B,"Instruction::PlayNotes { blocking: *blocking }","Instruction::PlayNotes { blocking: !*blocking }"),

('break','P08',B,"            kind => return Err(CompileError::UnsupportedStmt { kind }),","            _ => (),"),
('break','P08',B,"            kind => return Err(CompileError::UnsupportedExpr { kind }),","            _ => self.ins.push(Instruction::PushString { value: \"\" }.into()),"),
('break','P08',B,"                if let Some(t) = duration {\n                    self.append_simple_ins(entity, &[t], Instruction::Sleep)?;","                if let Some(t) = duration {\n                    if matches!(style, PrintStyle::Say) { self.append_simple_ins(entity, &[t], Instruction::Sleep)?; }"),
('break','P08',B,"                for stmt in otherwise {\n                    self.append_stmt(stmt, entity)?;\n                }","                for stmt in if otherwise.is_empty() { otherwise } else { then } {\n                    self.append_stmt(stmt, entity)?;\n                }"),
('break','P08',B,"                for stmt in handler {\n                    self.append_stmt(stmt, entity)?;\n                }","                for stmt in handler.iter().skip(1) {\n                    self.append_stmt(stmt, entity)?;\n                }"),
('break','P08',B,"                for stmt in handler {\n                    self.append_stmt(stmt, entity)?;\n                }","                for stmt in handler {\n                    self.append_stmt(stmt, None)?;\n                }"),
('break','P08',B,"                for stmt in handler {\n                    self.append_stmt(stmt, entity)?;\n                }","                for stmt in handler {\n                    let _ = self.append_stmt(stmt, entity);\n                }"),
('break','P08',B,"                for stmt in handler {\n                    self.append_stmt(stmt, entity)?;\n                }","                for stmt in handler.iter().rev() {\n                    self.append_stmt(stmt, entity)?;\n                }"),
('break','P08',B,"PushHandler { pos: error_handler_pos, var: &var.trans_name }","PushHandler { pos: error_handler_pos, var: \"error\" }"),
('break','P08',B,"                self.ins.push(Instruction::PushBool { value: *value }.into());\n                self.ins.push(Instruction::SetProperty { prop: Property::PenDown }.into());","                self.ins.push(Instruction::PushBool { value: true }.into());\n                self.ins.push(Instruction::SetProperty { prop: Property::PenDown }.into());\n                let _ = value;"),
('break','P08',B,"let (r, g, b, a) = *color;","let (r, g, b, _) = *color; let a = 255;"),
('break','P08',B,"let (r, g, b, a) = *color;","let (r, b, g, a) = *color;"),
('break','P08',B,"                for var in vars {\n                    self.ins.push(Instruction::DeclareLocal","                for var in vars.iter().take(4) {\n                    self.ins.push(Instruction::DeclareLocal"),
('break','P08',B,"                tokens.push(msg_type);\n                for (field, value) in values {\n                    self.append_expr(value, entity)?;\n                    tokens.push(field);\n                }\n                self.append_expr(target, entity)?;\n                self.ins.push(Instruction::SendNetworkMessage { tokens: self.string_arena.alloc(tokens.finish()), expect_reply: true }","                tokens.push(msg_type);\n                for (field, value) in values.iter().rev() {\n                    self.append_expr(value, entity)?;\n                }\n                for (field, _) in values { tokens.push(field); }\n                self.append_expr(target, entity)?;\n                self.ins.push(Instruction::SendNetworkMessage { tokens: self.string_arena.alloc(tokens.finish()), expect_reply: true }"),
('break','P08',B,"tokens.push(host.as_deref().unwrap_or(\"\"));","tokens.push(\"\"); let _ = host;",0),
('break','P08',B,"&[msg_type, target], Instruction::SendLocalMessage { wait: *wait, target: true }","&[msg_type, target], Instruction::SendLocalMessage { wait: false, target: true }"),
('break','P08',B,"Some(target) => self.append_simple_ins(entity, &[msg_type, target], Instruction::SendLocalMessage","Some(target) => self.append_simple_ins(entity, &[target, msg_type], Instruction::SendLocalMessage"),
('break','P08',B,"                self.append_expr(target, entity)?;\n                self.ins.push(Instruction::Clone.into());\n                self.ins.push(Instruction::PopValue.into());","                self.ins.push(Instruction::PushSelf.into()); let _ = target;\n                self.ins.push(Instruction::Clone.into());\n                self.ins.push(Instruction::PopValue.into());"),
('break','P08',B,"                self.append_expr(f, entity)?;\n                self.append_expr(list, entity)?;\n                self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); // shallow copy the input list\n\n                let top","                self.append_expr(list, entity)?;\n                self.append_expr(f, entity)?;\n                self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); // shallow copy the input list\n\n                let top"),
('break','P08',B,"self.closure_holes.push_back((closure_hole_pos, params, captures, stmts, entity));","self.closure_holes.push_back((closure_hole_pos, params, captures, stmts, None));"),
('break','P08',B,"self.call_holes.push((call_hole_pos, function, entity));\n            }\n            ast::StmtKind::CallClosure","self.call_holes.push((call_hole_pos, function, None));\n            }\n            ast::StmtKind::CallClosure"),
('break','P08',B,"                for upvar in upvars {\n                    self.ins.push(Instruction::DeclareLocal { var: &upvar.name }.into());\n                }\n                for arg in args {\n                    self.append_expr(arg, entity)?;\n                }\n                let call_hole_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);\n                self.ins.push(Instruction::PopValue","                let _ = upvars;\n                for arg in args {\n                    self.append_expr(arg, entity)?;\n                }\n                let call_hole_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);\n                self.ins.push(Instruction::PopValue"),
('break','P08',B,"        for upvar in upvars {\n            self.ins.push(Instruction::InitUpvar","        for upvar in upvars.iter().skip(1) {\n            self.ins.push(Instruction::InitUpvar"),
('break','P08',B,"            for param in fn_info.params.iter() {\n                tokens.push(&param.trans_name);","            for param in fn_info.params.iter().rev() {\n                tokens.push(&param.trans_name);"),
('break','P08',B,"                self.append_expr(left, entity)?;\n                self.ins.push(Instruction::DupeValue { top_index: 0 }.into());\n                let check_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);\n                self.ins.push(Instruction::PopValue.into());\n                self.append_expr(right, entity)?;\n                let aft = self.ins.len();\n\n                self.ins[check_pos] = Instruction::ConditionalJump { to: aft, when: true }","                self.append_expr(right, entity)?;\n                self.ins.push(Instruction::DupeValue { top_index: 0 }.into());\n                let check_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);\n                self.ins.push(Instruction::PopValue.into());\n                self.append_expr(left, entity)?;\n                let aft = self.ins.len();\n\n                self.ins[check_pos] = Instruction::ConditionalJump { to: aft, when: true }"),
('keep','P08',B,"ast::StmtKind::ListInsert { list, value, index } => self.append_simple_ins(entity, &[value, index, list], Instruction::ListInsert)?","ast::StmtKind::ListInsert { list, value, index } => {\n                self.append_expr(value, entity)?;\n                self.append_expr(index, entity)?;\n                self.append_expr(list, entity)?;\n                self.ins.push(Instruction::ListInsert.into());\n            }"),
('keep','P08',B,"                for stmt in handler {\n                    self.append_stmt(stmt, entity)?;\n                }","                handler.iter().try_for_each(|stmt| self.append_stmt(stmt, entity))?;"),
('keep','P08',B,"                for stmt in handler {\n                    self.append_stmt(stmt, entity)?;\n                }","                for i in 0..handler.len() {\n                    self.append_stmt(&handler[i], entity)?;\n                }"),
('keep','P08',B,"                let style = match x {\n                    ast::StmtKind::Say { .. } => PrintStyle::Say,\n                    ast::StmtKind::Think { .. } => PrintStyle::Think,\n                    _ => unreachable!(),\n                };","                let style = if matches!(x, ast::StmtKind::Say { .. }) { PrintStyle::Say } else { PrintStyle::Think };"),
('keep','P08',B,"            kind => return Err(CompileError::UnsupportedStmt { kind }),","            _ => return Err(CompileError::UnsupportedStmt { kind: &stmt.kind }),"),
('keep','P08',B,"tokens.push(host.as_deref().unwrap_or(\"\"));","tokens.push(match host { Some(x) => x.as_str(), None => \"\" });",0),
('keep','P08',B,"                let (r, g, b, a) = *color;\n                self.ins.push(Instruction::PushColor { value: Color { r, g, b, a } }.into());","                let c = Color { r: color.0, g: color.1, b: color.2, a: color.3 };\n                self.ins.push(Instruction::PushColor { value: c }.into());"),
('keep','P08',B,"            ast::StmtKind::SendLocalMessage { target, msg_type, wait } => match target {\n                Some(target) => self.append_simple_ins(entity, &[msg_type, target], Instruction::SendLocalMessage { wait: *wait, target: true })?,\n                None => self.append_simple_ins(entity, &[msg_type], Instruction::SendLocalMessage { wait: *wait, target: false })?,\n            }","            ast::StmtKind::SendLocalMessage { target, msg_type, wait } => {\n                self.append_expr(msg_type, entity)?;\n                if let Some(target) = target {\n                    self.append_expr(target, entity)?;\n                }\n                self.ins.push(Instruction::SendLocalMessage { wait: *wait, target: target.is_some() }.into());\n            }"),
]
