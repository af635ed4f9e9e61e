R, X, J = 'runtime.rs', 'process.rs', 'project.rs'
MUTS = [
    ('break', 'P15', R, "            Shared::Aliased(x) => *x.borrow_mut(mc) = value,", "            Shared::Aliased(_) => *self = Shared::Unique(value),"),
    ('break', 'P15', R, "res.define_or_redefine(k, Shared::Unique(v.get().clone()));", "res.define_or_redefine(k, match v { Shared::Aliased(x) => Shared::Aliased(*x), Shared::Unique(x) => Shared::Unique(x.clone()) });"),
    ('break', 'P15', R, "res.define_or_redefine(k, Shared::Unique(v.get().clone()));", "if let Shared::Unique(_) = v { res.define_or_redefine(k, Shared::Unique(v.get().clone())); }"),
    ('break', 'P15', R, "        for src in self.0.iter_mut().rev() {", "        for src in self.0.iter_mut() {"),
    ('break', 'P15', R, "        for src in self.0.iter().rev() {", "        for src in self.0.iter() {"),
    ('break', 'P15', X, "self.call_stack.last_mut().unwrap().locals.define_or_redefine(var, Shared::Unique(Number::new(0.0).unwrap().into()));", "let locals = &mut self.call_stack.last_mut().unwrap().locals; if let Some(x) = locals.lookup_mut(var) { x.set(mc, Number::new(0.0).unwrap().into()) } else { locals.define_or_redefine(var, Shared::Unique(Number::new(0.0).unwrap().into())); }"),
    ('break', 'P15', X, "self.call_stack.last_mut().unwrap().locals.define_or_redefine(var, Shared::Unique(Number::new(0.0).unwrap().into()));", "self.call_stack.first_mut().unwrap().locals.define_or_redefine(var, Shared::Unique(Number::new(0.0).unwrap().into()));"),
    ('break', 'P15', X, "current_scope.locals.define_or_redefine(var, parent_def.alias(mc));", "current_scope.locals.define_or_redefine(var, parent_def.get().clone().into());"),
    ('break', 'P15', X, "parent_scope.locals.lookup_mut(target.as_str())", "parent_scope.locals.lookup_mut(var)"),
    ('break', 'P15', X, "caps.define_or_redefine(var, lookup_var!(mut var => var.alias(mc)));", "caps.define_or_redefine(var, lookup_var!(mut var => var.get().clone().into()));"),
    ('break', 'P15', X, "caps.define_or_redefine(var, lookup_var!(mut var => var.alias(mc)));", "caps.define_or_redefine(var, lookup_var!(mut var => match var { Shared::Unique(x) => Shared::Unique(x.clone()), x => x.alias(mc) }));"),
    ('break', 'P15', X, "locals.define_or_redefine(k, v.alias(mc));", "locals.define_or_redefine(k, v.get().clone().into());"),
    ('break', 'P15', X, "            Ok((closure.pos, locals))", "            Ok((closure.pos, locals.clone()))"),
    ('break', 'P15', X, "fields: target.fields.clone(),", "fields: target.original.map(|x| x.borrow().fields.clone()).unwrap_or_else(|| target.fields.clone()),"),
    ('break', 'P15', X, "fields: target.fields.clone(),", "fields: SymbolTable::default(),"),
    ('break', 'P15', X, "fields: target.fields.clone(),", "fields: self.call_stack.last().unwrap().entity.borrow().fields.clone(),"),
    ('break', 'P15', X, "lookup_var!(mut var => var.set(mc, value));", "lookup_var!(mut var => *var = Shared::Unique(value));"),
    ('break', 'P15', J, "start_pos: pos, locals, barrier: None, reply_key: None, loca", "start_pos: pos, locals: locals.clone(), barrier: None, reply_key: None, loca"),
    ('break', 'P15', J, "start_pos: pos, locals, barrier: None, reply_key: None, loca", "start_pos: pos, locals: { drop(locals); Default::default() }, barrier: None, reply_key: None, loca"),
    ('break', 'P15', X, "locals.define_or_redefine(var, val.into());", "if locals.lookup(var).is_some() { continue }\n                    locals.define_or_redefine(var, val.into());"),
    # behaviour-preserving
    ('keep', 'P15', X, "caps.define_or_redefine(var, lookup_var!(mut var => var.alias(mc)));", "let cell = lookup_var!(mut var => var.alias_inner(mc));\n                    caps.define_or_redefine(var, Shared::Aliased(cell));"),
    ('keep', 'P15', X, "locals.define_or_redefine(k, v.alias(mc));", "let shared = v.alias(mc);\n                locals.define_or_redefine(k.as_str(), shared);"),
    ('keep', 'P15', X, "locals.define_or_redefine(var, value.into());", "locals.define_or_redefine(var, Shared::Unique(value));"),
    ('keep', 'P15', R, "        Shared::Aliased(self.alias_inner(mc))", "        let cell = self.alias_inner(mc);\n        Shared::Aliased(cell)"),
    ('keep', 'P15', R, "        self.0.insert(CompactString::new(var), value);", "        let key = CompactString::new(var);\n        let _ = self.0.insert(key, value);"),
    ('keep', 'P15', R, "res.define_or_redefine(k, Shared::Unique(v.get().clone()));", "let value = v.get().clone();\n            res.define_or_redefine(k, value.into());"),
    ('keep', 'P15', R, "        for src in self.0.iter().rev() {\n            if let Some(val) = src.lookup(var) {\n                return Some(val);\n            }\n        }\n        None\n", "        self.0.iter().rev().find_map(|src| src.lookup(var))\n"),
    ('keep', 'P15', X, "let entity = self.call_stack.last().unwrap().entity;\n                self.call_stack.push(CallFrame {", "let frame = self.call_stack.last().unwrap();\n                let entity = frame.entity;\n                self.call_stack.push(CallFrame {"),
    ('keep', 'P15', X, "lookup_var!(mut var => var.set(mc, value));", "lookup_var!(mut var => { let cell: &mut Shared<_> = var; cell.set(mc, value) });"),
]
