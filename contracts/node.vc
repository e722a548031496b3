//@ fn class:Node:static
//@ body
    proof { reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2); }
//@ fn class:FormalParam:static
//@ body
    proof { reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2); }
//@ fn class:BlockInfo:static
//@ body
    proof { reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2); }
//@ fn class:CaseBranch:static
//@ body
    proof { reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2); }
//@ fn class:RescueEntry:static
//@ body
    proof { reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2); }
//@ fn FormalParam::destruct_param
//@ requires
        /*@C01*/ params@.len() >= 1,
//@ ensures
        /*@C09*/ r.kind == ParamKind::Destruct(params),
//@ loop 0
            /*@C03*/ forall|s: Seq<char>| #![trigger params.ok_in(s)] params.ok_in(s) ==> acc.ok_in(s),
//@ fn Node::new_mul_assign
//@ requires
        /*@C01*/ mlhs@.len() >= 1,
        /*@C01*/ mrhs@.len() >= 1,
//@ ensures
        /*@C24*/ r.kind matches NodeKind::MulAssign(l, v) && l == mlhs && values_of(mlhs@.len() as int, mrhs@, v@),
//@ loop 0
            /*@C24*/ __r0 == splat_in(mrhs@, __k0 as int),
//@ fn Node::new_assign_op
//@ ensures
        /*@C24*/ r.kind == NodeKind::AssignOp(op, Box::new(lhs), Box::new(rhs)),
//@ fn Node::new_array
//@ ensures
        /*@C24*/ r.kind matches NodeKind::Array(x, _) && x == nodes,
//@ fn Node::new_binop
//@ ensures
        /*@C08*/ r.kind == NodeKind::BinOp(op, Box::new(lhs), Box::new(rhs)),
//@ fn Node::new_unop
//@ ensures
        /*@C08*/ r.kind == NodeKind::UnOp(op, Box::new(lhs)),
//@ fn Node::new_splat
//@ ensures
        /*@C24*/ r.kind == NodeKind::Splat(Box::new(array)),
//@ fn Node::new_lvar
//@ ensures
        /*@C07*/ r.kind == NodeKind::LocalVar(outer, name),
//@ fn Node::new_discard
//@ ensures
        /*@C24*/ r.kind == NodeKind::DiscardLhs,
//@ fn Node::is_splat
//@ ret r
//@ ensures
        /*@C24*/ r == (self.kind is Splat),
//@ fn Node::is_assignable
//@ ret r
//@ ensures
        /*@C24*/ r == assignable(*self),
//@ fn ArgList::is_empty
//@ ret r
//@ ensures
        /*@C24*/ r == no_args(*self),
//@ fn Node::is_empty
//@ fn Node::new_interporated_string
//@ ensures
        /*@C06*/ r.kind is InterporatedString,
//@ loop 0
            /*@C03*/ forall|s: Seq<char>| #![trigger nodes.ok_in(s)] nodes.ok_in(s) ==> __v0.ok_in(s) && __r0.ok_in(s),
//@ fn Node::new_regexp
//@ loop 0
            /*@C03*/ forall|s: Seq<char>| #![trigger regex0.ok_in(s)] regex0.ok_in(s) ==> regex.ok_in(s),
//@ body
    let ghost regex0 = regex;
//@ fn Node::new_super
//@ noensdefault
//@ ensures
        /*@C22*/ r.kind == NodeKind::Super(crate::stdx::conv::<_, Option<ArgList>>(args)),
        /*@C03*/ forall|s: Seq<char>| #![trigger r.ok_in(s)] (loc.ok_in(s) && crate::stdx::conv::<_, Option<ArgList>>(args).ok_in(s)) ==> r.ok_in(s),
//@ fn ArgList::default
//@ ret r
//@ ensures
        /*@C03*/ r.args@.len() == 0,
        /*@C03*/ r.kw_args@.len() == 0,
        /*@C03*/ r.hash_splat@.len() == 0,
        /*@C03*/ r.block is None,
        /*@C03*/ !r.forwarding,
        /*@C03*/ !r.splat,
//@ fn ArgList::from_args
//@ ensures
        /*@C03*/ r.args == args,
        /*@C03*/ r.kw_args@.len() == 0,
        /*@C03*/ r.hash_splat@.len() == 0,
        /*@C03*/ r.block is None,
        /*@C03*/ !r.forwarding,
        /*@C03*/ !r.splat,
//@ fn ArgList::with_block
//@ ensures
        /*@C03*/ r.args@.len() == 0,
        /*@C03*/ r.kw_args@.len() == 0,
        /*@C03*/ r.hash_splat@.len() == 0,
        /*@C03*/ r.block == Some(block),
        /*@C03*/ !r.forwarding,
        /*@C03*/ !r.splat,
//@ fn CmpKind::from
//@ ret r
//@ requires
        /*@C01*/ i <= 6,
//@ ensures
        /*@C19*/ r == (match i {
            0 => CmpKind::Eq, 1 => CmpKind::Ne, 2 => CmpKind::Lt, 3 => CmpKind::Le,
            4 => CmpKind::Gt, 5 => CmpKind::Ge, _ => CmpKind::TEq,
        }),
//@ fn Node::is_imm_u32
//@ ret r
//@ ensures
        /*@C19*/ r == (match self.kind {
            NodeKind::Integer(i) => if 0 <= i <= 0xffff_ffff { Some(i as u32) } else { None },
            _ => None,
        }),
//@ fn Node::is_imm_i32
//@ ret r
//@ ensures
        /*@C19*/ r == (match self.kind {
            NodeKind::Integer(i) => if -0x8000_0000 <= i <= 0x7fff_ffff { Some(i as i32) } else { None },
            _ => None,
        }),
//@ fn Node::new_identifier
//@ ensures
        /*@C03*/ r.kind == NodeKind::Ident(name),
        /*@C03*/ r.loc == loc,
//@ fn Node::as_method_name
//@ ret r
//@ ensures
        /*@C01*/ self.kind is Ident || self.kind is Const ==> r is Some,
//@ fn FormalParam::req_param
//@ ensures
        /*@C09*/ r.kind == ParamKind::Param(name),
//@ fn FormalParam::post
//@ ensures
        /*@C09*/ r.kind == ParamKind::Post(name),
//@ fn FormalParam::rest
//@ ensures
        /*@C09*/ r.kind == ParamKind::Rest(Some(name)),
//@ fn FormalParam::rest_discard
//@ ensures
        /*@C09*/ r.kind == ParamKind::Rest(None),
//@ fn FormalParam::kwrest
//@ ensures
        /*@C09*/ r.kind == ParamKind::KWRest(name),
//@ fn FormalParam::block
//@ ensures
        /*@C09*/ r.kind == ParamKind::Block(name),
//@ fn FormalParam::delegeate
//@ ensures
        /*@C09*/ r.kind == ParamKind::Delegate,
//@ fn FormalParam::optional
//@ ensures
        /*@C09*/ r.kind is Optional && r.kind->Optional_0 == name,
//@ fn FormalParam::keyword
//@ ensures
        /*@C09*/ r.kind is Keyword && r.kind->Keyword_0 == name,
//@ fn BlockInfo::new
//@ requires
        /*@C09*/ params_in(params@, lvar),
        /*@C09*/ params_ordered(params@),
        /*@C07*/ no_dup(lvar.table),
//@ fn Node::new_method_decl
//@ requires
        /*@C09*/ params_in(params@, lvar),
        /*@C09*/ params_ordered(params@),
        /*@C07*/ no_dup(lvar.table),
//@ fn Node::new_singleton_method_decl
//@ requires
        /*@C09*/ params_in(params@, lvar),
        /*@C09*/ params_ordered(params@),
        /*@C07*/ no_dup(lvar.table),
//@ fn Node::new_lambda
//@ requires
        /*@C09*/ params_in(params@, lvar),
        /*@C09*/ params_ordered(params@),
        /*@C07*/ no_dup(lvar.table),
//@ fn Node::new_class_decl
//@ requires
        /*@C09*/ params_in(seq![], lvar),
        /*@C07*/ no_dup(lvar.table),
//@ fn Node::new_singleton_class_decl
//@ requires
        /*@C09*/ params_in(seq![], lvar),
        /*@C07*/ no_dup(lvar.table),
//@ fn Node::new_nil
//@ ensures
        /*@C22*/ r.kind == NodeKind::Nil,
//@ fn Node::new_integer
//@ ensures
        /*@C05*/ r.kind == NodeKind::Integer(num),
//@ fn Node::new_bignum
//@ ensures
        /*@C05*/ r.kind == NodeKind::Bignum(num),
//@ fn Node::new_bool
//@ ensures
        /*@C22*/ r.kind == NodeKind::Bool(b),
//@ fn Node::new_float
//@ ensures
        /*@C05*/ r.kind == NodeKind::Float(num),
//@ fn Node::new_imaginary
//@ ensures
        /*@C05*/ r.kind == NodeKind::Imaginary(num),
//@ fn Node::new_string
//@ ensures
        /*@C06*/ r.kind == (match s { RubyString::Bytes(b) => NodeKind::Bytes(b), RubyString::Utf8(t) => NodeKind::String(t) }),
//@ fn Node::new_self
//@ ensures
        /*@C22*/ r.kind == NodeKind::SelfValue,
//@ fn Node::new_symbol
//@ ensures
        /*@C16*/ r.kind == NodeKind::Symbol(symbol),
//@ fn Node::new_instance_var
//@ ensures
        /*@C16*/ r.kind == NodeKind::InstanceVar(name),
//@ fn Node::new_class_var
//@ ensures
        /*@C16*/ r.kind == NodeKind::ClassVar(name),
//@ fn Node::new_global_var
//@ ensures
        /*@C16*/ r.kind == NodeKind::GlobalVar(name),
//@ fn Node::new_const
//@ ensures
        /*@C16*/ r.kind == (NodeKind::Const { toplevel, name, parent, prefix }),
//@ fn Node::new_mcall
//@ ensures
        /*@C22*/ r.kind == (NodeKind::MethodCall { receiver: Box::new(receiver), method, arglist, safe_nav }),
//@ fn Node::new_fcall
//@ ensures
        /*@C22*/ r.kind == (NodeKind::FuncCall { method, arglist, safe_nav }),
//@ fn Node::new_fcall_noarg
//@ ensures
        /*@C22*/ r.kind matches NodeKind::FuncCall { method: m, arglist: a, safe_nav: n } && m == method && no_args(a) && n == safe_nav,
//@ fn Node::new_mcall_noarg
//@ ensures
        /*@C22*/ r.kind matches NodeKind::MethodCall { receiver: x, method: m, arglist: a, safe_nav: n } && *x == receiver && m == method && no_args(a) && n == safe_nav,
//@ fn Node::new_yield
//@ ensures
        /*@C22*/ r.kind == NodeKind::Yield(args),
