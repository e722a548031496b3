//@ fn class:Parser:mut
//@ requires
        /*@C01,C03*/ old(self).pwf(),
//@ ensures
        /*@C01,C03*/ $OK ==> final(self).pwf(),
        /*@C10*/ $OK ==> final(self).balanced(*old(self)),
        /*@C02*/ $OK ==> final(self).lexer.pos >= old(self).lexer.pos,
//@ loop 0
            /*@C01,C03*/ self.pwf(),
            /*@C10*/ self.balanced($L),
            /*@C02*/ self.lexer.pos >= $L.lexer.pos,
//@ decreases
blen(old(self).lexer.code@) - old(self).lexer.pos
//@ fn class:Parser:prog
//@ requires
        /*@C01,C03*/ old(self).pwf(),
//@ ensures
        /*@C01,C03*/ $OK ==> final(self).pwf(),
        /*@C10*/ $OK ==> final(self).balanced(*old(self)),
        /*@C02*/ $OK ==> final(self).lexer.pos > old(self).lexer.pos,
//@ loop 0
            /*@C01,C03*/ self.pwf(),
            /*@C10*/ self.balanced($L),
            /*@C02*/ self.lexer.pos >= $L.lexer.pos,
//@ decreases
blen(old(self).lexer.code@) - old(self).lexer.pos
//@ fn class:Parser:tok
//@ requires
        /*@C01,C03*/ old(self).lwf(),
//@ ensures
        /*@C01,C03*/ final(self).lwf(),
        /*@C10*/ final(self).same_ctx(*old(self)),
        /*@C02*/ final(self).lexer.pos >= old(self).lexer.pos,
        /*@C20*/ final(self).lexer.heredoc_pos == old(self).lexer.heredoc_pos,
//@ loop 0
            /*@C01,C03*/ self.lwf(),
            /*@C10*/ self.same_ctx($L),
            /*@C02*/ self.lexer.pos >= $L.lexer.pos,
            /*@C20*/ self.lexer.heredoc_pos == $L.lexer.heredoc_pos,
//@ decreases
blen(old(self).lexer.code@) - old(self).lexer.pos
//@ fn class:Parser:peek
//@ requires
        /*@C01,C03*/ old(self).lwf(),
//@ ensures
        /*@C01,C03*/ final(self).lwf(),
        /*@C10*/ final(self).same_ctx(*old(self)),
        /*@C20*/ final(self).at_same(*old(self)),
//@ decreases
blen(old(self).lexer.code@) - old(self).lexer.pos
//@ fn class:Parser:ref
//@ requires
        /*@C01,C03*/ self.pwf(),
//@ fn class:Parser:rtok
//@ requires
        /*@C01,C03*/ self.lwf(),
//@ fn class:Parser:par
//@ requires
        /*@C01,C03*/ old(self).pwf(),
//@ ensures
        /*@C01,C03*/ final(self).pwf(),
        /*@C10*/ final(self).same_env(*old(self)),
        /*@C10*/ final(self).same_flags(*old(self)),
        /*@C01*/ final(self).lexer == old(self).lexer,
        /*@C03*/ final(self).prev_loc == old(self).prev_loc,
        /*@C10*/ final(self).loop_stack == old(self).loop_stack,
        /*@C07,C10*/ $OK ==> scope_par(old(self).scope@, final(self).scope@),
//@ fn class:Parser:params
//@ requires
        /*@C01,C03*/ old(self).pwf(),
//@ ensures
        /*@C01,C03*/ $OK ==> final(self).pwf(),
        /*@C10*/ $OK ==> final(self).balanced_par(*old(self)),
        /*@C02*/ $OK ==> final(self).lexer.pos >= old(self).lexer.pos,
//@ loop 0
            /*@C01,C03*/ self.pwf(),
            /*@C10*/ self.balanced_par($L),
            /*@C02*/ self.lexer.pos >= $L.lexer.pos,
//@ decreases
blen(old(self).lexer.code@) - old(self).lexer.pos
//@ fn class:Parser:scope
//@ requires
        /*@C01,C03*/ old(self).pwf(),
//@ ensures
        /*@C01,C03*/ final(self).pwf(),
        /*@C10*/ final(self).same_env(*old(self)),
        /*@C10*/ final(self).same_flags(*old(self)),
        /*@C01*/ final(self).lexer == old(self).lexer,
        /*@C03*/ final(self).prev_loc == old(self).prev_loc,
        /*@C10*/ final(self).loop_stack == old(self).loop_stack,
        /*@C07,C10*/ scope_ext(old(self).scope@, final(self).scope@),

//@ fn Parser::save_state
//@ nodefault
//@ requires
        /*@C01,C03*/ self.lwf(),
//@ ensures
        /*@C01*/ r == (self.lexer.token_start_pos, self.lexer.pos),
//@ fn Parser::restore_state
//@ nodefault
//@ requires
        /*@C01,C03*/ old(self).pwf(),
        /*@C01,C03*/ isb(old(self).lexer.code@, state.0 as nat),
        /*@C01,C03*/ isb(old(self).lexer.code@, state.1 as nat),
        /*@C01*/ state.0 <= state.1,
//@ ensures
        /*@C01,C03*/ final(self).pwf(),
        /*@C10*/ final(self).same_ctx(*old(self)),
        /*@C03*/ final(self).prev_loc == old(self).prev_loc,
        /*@C20*/ final(self).lexer.clean(),
        /*@C20*/ final(self).lexer.pos == state.1, final(self).lexer.token_start_pos == state.0,
        /*@C20*/ final(self).lexer.heredoc_pos == old(self).lexer.heredoc_pos,
//@ fn Parser::prev_loc
//@ class Parser:rtok
//@ ensures
        /*@C03*/ r == self.prev_loc,
//@ fn Parser::peek
//@ class Parser:peek
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C20*/ r == old(self).lexer.res_nl(),
        /*@C01*/ r matches Ok(t) ==> !tok_lt(t),
//@ fn Parser::peek_no_term
//@ class Parser:peek
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C20*/ r == old(self).lexer.res(),
//@ fn Parser::peek_punct_no_term
//@ class Parser:peek
//@ ensures
        /*@C20*/ r ==> (old(self).lexer.res() matches Ok(t) && t.kind == TokenKind::Punct(punct)),
//@ fn Parser::is_line_term
//@ class Parser:peek
//@ ensures
        /*@C08*/ r matches Ok(b) && b ==> (old(self).lexer.res() matches Ok(t) && rank(t.kind) == 0),
//@ fn Parser::loc
//@ class Parser:peek
//@ fn Parser::is_command
//@ class Parser:peek
//@ ensures
        /*@C22*/ r ==> old(self).may_cmd(),
        /*@C22*/ !r ==> !old(self).must_cmd(),
//@ fn Parser::is_operator
//@ class Parser:peek
//@ ensures
        /*@C22*/ r matches Ok(b) ==> b == old(self).is_oper(),
//@ fn Parser::starts_argument
//@ class Parser:peek
//@ ensures
        /*@C22*/ r matches Ok(b) && !b ==> !old(self).must_cmd(),
        /*@C22*/ r matches Ok(b) && b ==> (old(self).lexer.res() matches Ok(t) && can_start(t)),
        /*@C22*/ r matches Ok(b) && !b ==> (old(self).lexer.res() matches Ok(t) && !must_start(t)),
//@ fn Parser::get
//@ class Parser:tok
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C12*/ r matches Ok(t) ==> old(self).lexer.res_nl() == Ok::<Token, LexerErr>(t) && final(self).prev_loc == t.loc,
        /*@C20*/ r is Ok ==> final(self).lexer.clean(),
        /*@C02*/ r is Ok ==> final(self).lexer.pos > old(self).lexer.pos,
        /*@C01*/ r matches Ok(t) ==> !tok_eof(t) && !tok_lt(t),
        /*@C20*/ old(self).lexer.res_nl() matches Ok(t) ==> (if tok_eof(t) { r is Err } else { r == Ok::<Token, LexerErr>(t) }),
        /*@C20*/ old(self).lexer.res_nl() is Err ==> r is Err,
        /*@C20*/ old(self).lexer.res() matches Ok(t) ==> (!tok_lt(t) && !tok_eof(t) ==> r == Ok::<Token, LexerErr>(t)),
//@ body
        proof { lemma_lex_nl(self.lexer.code@, self.lexer.pos as nat, self.lexer.heredoc_pos as nat); }
//@ loop 0
            /*@C20*/ self.lexer.res_nl() == $L.lexer.res_nl(),
//@ loopbody 0
            proof { lemma_lex_nl(self.lexer.code@, self.lexer.pos as nat, self.lexer.heredoc_pos as nat); }
//@ fn Parser::get_no_skip_line_term
//@ class Parser:tok
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C20*/ r is Ok ==> final(self).lexer.clean(),
        /*@C02*/ r matches Ok(t) ==> (!tok_eof(t) ==> final(self).lexer.pos > old(self).lexer.pos),
        /*@C20*/ r == old(self).lexer.res(),
//@ fn Parser::consume_char
//@ class Parser:tok
//@ requires
        /*@C20*/ old(self).lexer.clean(),
//@ ensures
        /*@C20*/ final(self).lexer.clean(),
//@ fn Parser::consume_ident
//@ class Parser:tok
//@ ensures
        /*@C20*/ r matches Ok(Some(_)) ==> final(self).lexer.clean(),
        /*@C02*/ r matches Ok(Some(_)) ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::consume_punct
//@ class Parser:tok
//@ ensures
        /*@C12*/ r matches Ok(b) && b ==> final(self).last_is(spell(expect)),
        /*@C12*/ r matches Ok(b) ==> (old(self).lexer.res_nl() matches Ok(t) && b == (t.kind == TokenKind::Punct(expect)) && (b ==> final(self).prev_loc == t.loc)),
        /*@C12*/ r matches Ok(b) && !b ==> final(self).at_same(*old(self)) && final(self).prev_loc == old(self).prev_loc,
        /*@C20*/ r matches Ok(b) && b ==> final(self).lexer.clean(),
        /*@C02*/ r matches Ok(b) && b ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::consume_punct_no_term
//@ class Parser:tok
//@ ensures
        /*@C12*/ r matches Ok(b) && b && !(expect is Semi) ==> final(self).last_is(spell(expect)),
        /*@C12*/ r matches Ok(b) ==> (old(self).lexer.res() matches Ok(t) && b == (t.kind == TokenKind::Punct(expect)) && (b && !(expect is Semi) ==> final(self).prev_loc == t.loc)),
        /*@C12*/ r matches Ok(b) && !b ==> final(self).at_same(*old(self)) && final(self).prev_loc == old(self).prev_loc,
        /*@C20*/ r matches Ok(b) && b ==> final(self).lexer.clean(),
        /*@C02*/ r matches Ok(b) && b ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::consume_assign_op_no_term
//@ class Parser:peek
//@ ensures
        /*@C20*/ r matches Ok(Some(op)) ==> (old(self).lexer.res() matches Ok(t) && t.kind == TokenKind::Punct(Punct::AssignOp(op))),
//@ fn Parser::consume_reserved
//@ class Parser:tok
//@ ensures
        /*@C12*/ r matches Ok(b) && b ==> final(self).last_is(keyword(expect)),
        /*@C12*/ r matches Ok(b) ==> (old(self).lexer.res_nl() matches Ok(t) && b == (t.kind == TokenKind::Reserved(expect)) && (b ==> final(self).prev_loc == t.loc)),
        /*@C12*/ r matches Ok(b) && !b ==> final(self).at_same(*old(self)) && final(self).prev_loc == old(self).prev_loc,
        /*@C20*/ r matches Ok(b) && b ==> final(self).lexer.clean(),
        /*@C02*/ r matches Ok(b) && b ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::consume_reserved_no_skip_line_term
//@ class Parser:tok
//@ ensures
        /*@C12*/ r matches Ok(b) && b ==> final(self).last_is(keyword(expect)),
        /*@C12*/ r matches Ok(b) ==> (old(self).lexer.res() matches Ok(t) && b == (t.kind == TokenKind::Reserved(expect)) && (b ==> final(self).prev_loc == t.loc)),
        /*@C12*/ r matches Ok(b) && !b ==> final(self).at_same(*old(self)) && final(self).prev_loc == old(self).prev_loc,
        /*@C20*/ r matches Ok(b) && b ==> final(self).lexer.clean(),
        /*@C02*/ r matches Ok(b) && b ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::consume_term
//@ class Parser:tok
//@ fn Parser::expect_reserved
//@ class Parser:tok
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(expect)),
        /*@C12*/ r is Ok ==> (old(self).lexer.res_nl() matches Ok(t) && t.kind == TokenKind::Reserved(expect) && final(self).prev_loc == t.loc),
        /*@C20*/ r is Ok ==> final(self).lexer.clean(),
        /*@C02*/ r is Ok ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::expect_punct
//@ class Parser:tok
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(spell(expect)),
        /*@C12*/ r is Ok ==> (old(self).lexer.res_nl() matches Ok(t) && t.kind == TokenKind::Punct(expect) && final(self).prev_loc == t.loc),
        /*@C20*/ r is Ok ==> final(self).lexer.clean(),
        /*@C02*/ r is Ok ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::expect_ident
//@ class Parser:tok
//@ ensures
        /*@C20*/ r is Ok ==> final(self).lexer.clean(),
        /*@C02*/ r is Ok ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::expect_const
//@ class Parser:tok
//@ ensures
        /*@C20*/ r is Ok ==> final(self).lexer.clean(),
        /*@C02*/ r is Ok ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::read_method_name
//@ class Parser:tok
//@ ensures
        /*@C20*/ final(self).lexer.clean(),
        /*@C02*/ r is Ok ==> final(self).lexer.pos > old(self).lexer.pos,
//@ fn Parser::read_method_ext
//@ class Parser:tok
//@ ensures
        /*@C20*/ final(self).lexer.clean(),
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).lexer.code@),
//@ fn Parser::parse_then
//@ class Parser:tok
//@ fn Parser::parse_do
//@ class Parser:tok
//@ fn Parser::parse_op_definable
//@ class Parser:tok
//@ requires
        /*@C20*/ old(self).lexer.clean(),

//@ fn Parser::scope_mut
//@ nodefault
//@ requires
        /*@C01,C03*/ old(self).pwf(),
//@ ensures
        /*@C10*/ *r == old(self).scope@.last(),
        /*@C10*/ final(self).scope@ == old(self).scope@.drop_last().push(*final(r)),
        /*@C01*/ final(self).lexer == old(self).lexer,
        /*@C03*/ final(self).prev_loc == old(self).prev_loc,
        /*@C10*/ final(self).loop_stack == old(self).loop_stack,
        /*@C10*/ final(self).same_env(*old(self)),
        /*@C10*/ final(self).same_flags(*old(self)),
//@ fn Parser::new_param
//@ class Parser:par
//@ requires
        /*@C01*/ old(self).scope@.last().lvar.param_num <= old(self).scope@.last().lvar.table.0@.len(),
//@ ensures
        /*@C09*/ r is Err <==> names(old(self).scope@.last().lvar.table).contains(name@),
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.param_num == old(self).scope@.last().lvar.param_num + 1
            && names(final(self).scope@.last().lvar.table) == names(old(self).scope@.last().lvar.table).insert(old(self).scope@.last().lvar.param_num as int, name@),
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.kw == old(self).scope@.last().lvar.kw && final(self).scope@.last().lvar.kwrest == old(self).scope@.last().lvar.kwrest && final(self).scope@.last().lvar.block == old(self).scope@.last().lvar.block && final(self).scope@.last().lvar.forwarding_param == old(self).scope@.last().lvar.forwarding_param,
        /*@C09*/ r matches Ok(id) ==> id.0 == old(self).scope@.last().lvar.param_num,
//@ fn Parser::add_kw_param
//@ class Parser:par
//@ ensures
        /*@C09*/ final(self).scope@.last().lvar.kw@ == old(self).scope@.last().lvar.kw@.push(lvar),
        /*@C09*/ final(self).scope@.last().lvar.param_num == old(self).scope@.last().lvar.param_num && final(self).scope@.last().lvar.table == old(self).scope@.last().lvar.table && final(self).scope@.last().lvar.kwrest == old(self).scope@.last().lvar.kwrest && final(self).scope@.last().lvar.block == old(self).scope@.last().lvar.block && final(self).scope@.last().lvar.forwarding_param == old(self).scope@.last().lvar.forwarding_param,
//@ fn Parser::new_kwrest_param
//@ class Parser:par
//@ requires
        /*@C01*/ old(self).scope@.last().lvar.param_num <= old(self).scope@.last().lvar.table.0@.len(),
//@ ensures
        /*@C09*/ r is Err <==> names(old(self).scope@.last().lvar.table).contains(name@),
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.param_num == old(self).scope@.last().lvar.param_num + 1
            && names(final(self).scope@.last().lvar.table) == names(old(self).scope@.last().lvar.table).insert(old(self).scope@.last().lvar.param_num as int, name@),
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.kw == old(self).scope@.last().lvar.kw && final(self).scope@.last().lvar.block == old(self).scope@.last().lvar.block && final(self).scope@.last().lvar.forwarding_param == old(self).scope@.last().lvar.forwarding_param,
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.kwrest == Some(LvarId(old(self).scope@.last().lvar.param_num)),
//@ fn Parser::new_block_param
//@ class Parser:par
//@ requires
        /*@C01*/ old(self).scope@.last().lvar.param_num <= old(self).scope@.last().lvar.table.0@.len(),
//@ ensures
        /*@C09*/ r is Err <==> names(old(self).scope@.last().lvar.table).contains(name@),
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.param_num == old(self).scope@.last().lvar.param_num + 1
            && names(final(self).scope@.last().lvar.table) == names(old(self).scope@.last().lvar.table).insert(old(self).scope@.last().lvar.param_num as int, name@),
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.kw == old(self).scope@.last().lvar.kw && final(self).scope@.last().lvar.kwrest == old(self).scope@.last().lvar.kwrest && final(self).scope@.last().lvar.forwarding_param == old(self).scope@.last().lvar.forwarding_param,
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.block == Some(LvarId(old(self).scope@.last().lvar.param_num)),
//@ fn Parser::new_delegate_param
//@ class Parser:par
//@ requires
        /*@C01*/ old(self).scope@.last().lvar.param_num <= old(self).scope@.last().lvar.table.0@.len(),
//@ ensures
        /*@C09*/ r is Err <==> names(old(self).scope@.last().lvar.table).contains("..."@),
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.param_num == old(self).scope@.last().lvar.param_num + 1
            && names(final(self).scope@.last().lvar.table) == names(old(self).scope@.last().lvar.table).insert(old(self).scope@.last().lvar.param_num as int, "..."@),
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.kw == old(self).scope@.last().lvar.kw && final(self).scope@.last().lvar.kwrest == old(self).scope@.last().lvar.kwrest && final(self).scope@.last().lvar.block == old(self).scope@.last().lvar.block,
        /*@C09*/ r is Ok ==> final(self).scope@.last().lvar.forwarding_param == Some(LvarId(old(self).scope@.last().lvar.param_num)),
//@ fn Parser::is_local_var
//@ attr #[verifier::allow_complex_invariants]
//@ class Parser:scope
//@ ensures
        /*@C10*/ final(self).scope == old(self).scope,
        /*@C07*/ resolve(old(self).scope@, id@) matches Some(k) ==> r matches Some(x) && x == k,
        /*@C07*/ resolve(old(self).scope@, id@) is None && old(self).extern_context is None ==> r is None,
//@ body
        proof { lemma_resolve_step(self.scope@, self.scope@.len() as int, id@); }
//@ loop 0
            nodefault
            except_break outer <= self.scope@.len() - __k0,
            except_break resolve(self.scope@, id@) == (match resolve(self.scope@.take(__k0 as int), id@) { Some(k) => Some((k + outer) as nat), None => None }),
            ensures resolve(self.scope@, id@) is None,
            /*@C01*/ *self == *old(self),
//@ loopbody 0
            proof { lemma_resolve_step(self.scope@, __k0 + 1, id@); }
//@ fn Parser::add_local_var_if_new
//@ class Parser:scope
//@ ensures
        /*@C07*/ old(self).extern_context is None ==> (resolve(final(self).scope@, name@) matches Some(k) && k == r),
        /*@C07*/ resolve(old(self).scope@, name@) is Some ==> final(self).scope == old(self).scope,
//@ body
        let ghost __s = self.scope@;
        proof { lemma_take_all(__s); }
//@ loop 0
            nodefault
            /*@C10*/ self.scope@ =~= __s,
            /*@C01*/ self.lexer == old(self).lexer,
            /*@C03*/ self.prev_loc == old(self).prev_loc,
            /*@C10*/ self.loop_stack == old(self).loop_stack,
            /*@C10*/ self.same_env(*old(self)),
            /*@C10*/ self.same_flags(*old(self)),
            /*@C07*/ resolve(__s, name@) is None,
            /*@C01*/ forall|j: int| __k0 <= j < __s.len() ==> (#[trigger] __s[j]).kind is For,
//@ loopbody 0
            proof { lemma_resolve_none(__s, __k0 as int, name@); }
//@ fn Parser::check_outer_numbered_param
//@ class Parser:scope
//@ loop 0
            nodefault
            /*@C07,C10*/ scope_ext(old(self).scope@, self.scope@),
            /*@C10*/ self.scope@.len() >= 1,
            /*@C10*/ self.scope@[0].kind == old(self).scope@[0].kind,
            /*@C01*/ self.lexer == old(self).lexer,
            /*@C03*/ self.prev_loc == old(self).prev_loc,
            /*@C10*/ self.loop_stack == old(self).loop_stack,
            /*@C10*/ self.same_env(*old(self)),
            /*@C10*/ self.same_flags(*old(self)),
//@ fn Parser::is_method_context
//@ ensures
        /*@C11*/ r == in_method(self.scope@),
//@ body
        proof { lemma_take_all(self.scope@); }
//@ loop 0
            nodefault
            /*@C10*/ in_method(self.scope@) == in_method(self.scope@.take(__k0 as int)),
//@ loopbody 0
            proof { lemma_resolve_step(self.scope@, __k0 + 1, seq![]); }
//@ fn Parser::check_forwarding
//@ fn Parser::check_lhs
//@ class Parser:scope
//@ nolevel
//@ decreases
        lhs
//@ ensures
        /*@C24*/ r matches Ok(n) ==> target_of(lhs, n),
        /*@C24*/ r is Ok ==> const_ok(lhs, old(self).scope@),
//@ body
        proof { lemma_take_all(self.scope@); }
//@ loop 0
            /*@C24*/ in_method(self.scope@) == in_method(self.scope@.take(__k0 as int)),
//@ loopbody 0
            proof { lemma_resolve_step(self.scope@, __k0 + 1, seq![]); }
//@ fn LvarScope::new_method
//@ ret r
//@ ensures
        /*@C01*/ r.kind is Method,
        /*@C07,C09*/ fresh(r.lvar),
//@ fn LvarScope::new_eval
//@ ret r
//@ ensures
        /*@C01*/ r.kind is Eval,
        /*@C07*/ lvar_collector matches Some(l) ==> r.lvar == l,
        /*@C07,C09*/ lvar_collector is None ==> fresh(r.lvar),
//@ fn LvarScope::new_class
//@ ret r
//@ ensures
        /*@C01*/ r.kind is Class,
        /*@C07*/ lvar_collector matches Some(l) ==> r.lvar == l,
        /*@C07,C09*/ lvar_collector is None ==> fresh(r.lvar),
//@ fn LvarScope::new_block
//@ ret r
//@ ensures
        /*@C01*/ r.kind is Block,
        /*@C07*/ lvar_collector matches Some(l) ==> r.lvar == l,
        /*@C07,C09*/ lvar_collector is None ==> fresh(r.lvar),
//@ fn LvarScope::new_for
//@ ret r
//@ ensures
        /*@C01*/ r.kind is For,
        /*@C07,C09*/ fresh(r.lvar),

//@ fn Parser::parse_begin
//@ level 5500
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ fn Parser::parse_comp_stmt
//@ level 5000
//@ fn Parser::parse_stmt
//@ class Parser:prog
//@ level 4900
//@ requires
        /*@C10*/ !old(self).suppress_mul_assign && !old(self).suppress_do_block,
//@ fn Parser::parse_expr
//@ class Parser:prog
//@ level 4800
//@ fn Parser::parse_not
//@ class Parser:prog
//@ level 4700
//@ fn Parser::parse_mul_assign
//@ level 4600
//@ attr #[verifier::allow_complex_invariants]
//@ ensures
        /*@C24*/ r matches Ok(n) ==> (n.kind matches NodeKind::MulAssign(l, _) && l@.len() >= 2 && target_of(first_lhs, l@[0])),
//@ loop 0
            /*@C24*/ mlhs@[0] == first_lhs,
            ensures /*@C24*/ mlhs@.len() >= 2,
//@ before 0 let mrhs
        let ghost __m = mlhs@;
//@ loop 2
            /*@C24*/ forall|j: int| 0 <= j < __k2 ==> target_of(__m[j], #[trigger] mlhs@[j]),
            /*@C24*/ forall|j: int| __k2 <= j < mlhs@.len() ==> #[trigger] mlhs@[j] == __m[j],
            /*@C24*/ mlhs@.len() == __m.len(),
//@ fn Parser::parse_accesory_assign
//@ level 2450
//@ fn Parser::parse_assign_op
//@ level 2440
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(1),
//@ fn Parser::parse_super
//@ level 4560
//@ ensures
        /*@C22*/ r matches Ok(n) ==> (n.kind matches NodeKind::Super(a) && (a is None ==> !final(self).must_cmd())),
//@ fn Parser::parse_yield
//@ level 4560
//@ ensures
        /*@C22*/ r matches Ok(n) ==> (n.kind matches NodeKind::Yield(a) && (no_args(a) && !final(self).last_is(spell(Punct::RParen)) ==> !final(self).must_cmd())),
//@ fn Parser::parse_command
//@ level 4550
//@ requires
        /*@C22*/ old(self).may_cmd(),
//@ ensures
        /*@C22*/ r matches Ok(n) ==> (n.kind matches NodeKind::FuncCall { method: m, .. } && m == operation),
//@ fn Parser::parse_function_args
//@ level 4540
//@ requires
        /*@C01*/ node.kind is Ident || node.kind is Const,
//@ ensures
        /*@C22*/ r matches Ok(n) ==> n.kind is FuncCall || n == node && final(self).at_same(*old(self)),
//@ fn Parser::parse_primary_method
//@ level 4540
//@ class Parser:prog
//@ ensures
        /*@C22*/ r matches Ok(n) ==> (n.kind matches NodeKind::MethodCall { arglist: a, safe_nav: s, .. } && s == safe_nav && (no_args(a) && !final(self).last_is(spell(Punct::RParen)) ==> !final(self).must_cmd())),
//@ fn Parser::parse_arglist_block
//@ level 4500
//@ requires
        /*@C12*/ crate::stdx::conv::<_, Option<Punct>>(delimiter) matches Some(p) ==> old(self).opened_by(p),
        /*@C22*/ crate::stdx::conv::<_, Option<Punct>>(delimiter) is None ==> old(self).may_cmd(),
//@ ensures
        /*@C12*/ r matches Ok(a) && a.block is None ==> (crate::stdx::conv::<_, Option<Punct>>(delimiter) matches Some(p) ==> final(self).last_is(spell(p))),
        /*@C22*/ crate::stdx::conv::<_, Option<Punct>>(delimiter) is None ==> (r matches Ok(a) ==> !no_args(a)),
//@ fn Parser::parse_block
//@ level 4450
//@ ensures
        /*@C12*/ r matches Ok(Some(_)) ==> (old(self).lexer.res() matches Ok(t) && match t.kind {
            TokenKind::Punct(Punct::LBrace) => final(self).last_is(spell(Punct::RBrace)),
            TokenKind::Reserved(Reserved::Do) => final(self).last_is(keyword(Reserved::End)),
            _ => false }),
        /*@C23*/ r is Ok && old(self).suppress_do_block && (old(self).lexer.res() matches Ok(t) && t.kind == TokenKind::Reserved(Reserved::Do)) ==> r matches Ok(None),
        /*@C23*/ r is Ok && !old(self).suppress_do_block && (old(self).lexer.res() matches Ok(t) && t.kind == TokenKind::Reserved(Reserved::Do)) ==> r matches Ok(Some(_)),
        /*@C23*/ r is Ok && (old(self).lexer.res() matches Ok(t) && t.kind == TokenKind::Punct(Punct::LBrace)) ==> r matches Ok(Some(_)),
        /*@C23*/ r matches Ok(None) ==> final(self).at_same(*old(self)),
//@ fn Parser::parse_arglist
//@ requires
        /*@C12*/ crate::stdx::conv::<_, Option<Punct>>(punct) matches Some(p) ==> old(self).opened_by(p),
        /*@C22*/ crate::stdx::conv::<_, Option<Punct>>(punct) is None ==> old(self).may_val(),
//@ ensures
        /*@C12*/ r is Ok ==> (crate::stdx::conv::<_, Option<Punct>>(punct) matches Some(p) ==> final(self).last_is(spell(p))),
        /*@C22*/ crate::stdx::conv::<_, Option<Punct>>(punct) is None ==> (r matches Ok(a) ==> !no_args(a)),
//@ level 4400
//@ fn Parser::parse_arglist_items
//@ ensures
        /*@C12*/ r is Ok ==> (punct matches Some(p) ==> final(self).last_is(spell(p))),
        /*@C22*/ punct is None ==> (r matches Ok(a) ==> !no_args(a)),
//@ level 4390
//@ requires
        /*@C12*/ punct matches Some(p) ==> old(self).opened_by(p),
        /*@C22*/ punct is None ==> old(self).may_val(),
        /*@C24*/ old(self).suppress_mul_assign,
        /*@C23*/ old(self).suppress_do_block == (punct is None),
//@ attr #[verifier::rlimit(200)]
//@ attr #[verifier::loop_isolation(true)]
//@ body
        proof { lemma_lex_nl(self.lexer.code@, self.lexer.pos as nat, self.lexer.heredoc_pos as nat); }
//@ loop 0
            /*@C01*/ self.balanced(*old(self)),
            /*@C02*/ self.lexer.pos >= old(self).lexer.pos,
            /*@C01,C03*/ self.lexer.code == old(self).lexer.code,
            ensures /*@C22*/ !no_args(arglist),
//@ loop 1
            /*@C01*/ self.balanced(*old(self)),
            /*@C02*/ self.lexer.pos >= old(self).lexer.pos,
            /*@C01,C03*/ self.lexer.code == old(self).lexer.code,
//@ fn Parser::parse_mul_assign_rhs_if_allowed
//@ level 4300
//@ ensures
        /*@C01*/ r matches Ok(v) ==> v@.len() >= 1,
        /*@C24*/ r matches Ok(v) ==> (old(self).suppress_mul_assign ==> v@.len() == 1),
        /*@C08*/ r is Ok ==> final(self).stops(1),
//@ fn Parser::parse_mul_assign_rhs
//@ level 4200
//@ requires
        /*@C12*/ crate::stdx::conv::<_, Option<Punct>>(term) matches Some(p) ==> old(self).opened_by(p),
//@ ensures
        /*@C12*/ r is Ok ==> (crate::stdx::conv::<_, Option<Punct>>(term) matches Some(p) ==> final(self).last_is(spell(p))),
        /*@C01*/ r matches Ok(v) ==> v@.len() >= 1 || crate::stdx::conv::<_, Option<Punct>>(term) is Some,
        /*@C08*/ r is Ok && crate::stdx::conv::<_, Option<Punct>>(term) is None ==> final(self).stops(1),
//@ loop 0
            /*@C24*/ self.suppress_mul_assign,
            /*@C23*/ term is Some ==> !self.suppress_do_block,
//@ fn Parser::parse_arg
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(1),
//@ level 4000
//@ fn Parser::parse_arg_assign
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(1),
//@ level 3900
//@ fn Parser::parse_arg_ternary
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(13),
//@ level 3800
//@ fn Parser::parse_arg_range
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(15),
//@ level 3700
//@ fn Parser::parse_arg_logical_or
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(17),
//@ level 3600
//@ loop 0
            /*@C08*/ self.stops(18),
//@ fn Parser::parse_arg_logical_and
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(18),
//@ level 3500
//@ loop 0
            /*@C08*/ self.stops(20),
//@ fn Parser::parse_arg_eq
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(20),
//@ level 3400
//@ fn Parser::parse_arg_comp
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(30),
//@ level 3300
//@ loop 0
            /*@C08*/ self.stops(40),
//@ fn Parser::parse_arg_bitor
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(40),
//@ level 3200
//@ loop 0
            /*@C08*/ self.stops(50),
//@ fn Parser::parse_arg_bitand
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(50),
//@ level 3100
//@ loop 0
            /*@C08*/ self.stops(60),
//@ fn Parser::parse_arg_shift
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(60),
//@ level 3000
//@ loop 0
            /*@C08*/ self.stops(70),
//@ fn Parser::parse_arg_add
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(70),
//@ level 2900
//@ loop 0
            /*@C08*/ self.stops(80),
//@ fn Parser::parse_arg_mul
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(80),
//@ level 2800
//@ loop 0
            /*@C08*/ self.stops(90),
//@ fn Parser::parse_unary_minus
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(90),
//@ level 2700
//@ fn Parser::parse_exponent
//@ class Parser:prog
//@ ensures
        /*@C08*/ r is Ok ==> final(self).stops(90),
//@ level 2600
//@ fn Parser::parse_unary
//@ class Parser:prog
//@ level 2500
//@ fn Parser::parse_method_call
//@ class Parser:prog
//@ level 2400
//@ fn Parser::parse_primary
//@ attr #[verifier::spinoff_prover]
//@ class Parser:prog
//@ ensures
        /*@C05*/ r matches Ok(n) ==> (old(self).lexer.res_nl() matches Ok(t) && match t.kind {
            TokenKind::IntegerLit(i) => n.kind == NodeKind::Integer(i),
            TokenKind::BignumLit(b) => n.kind == NodeKind::Bignum(b),
            TokenKind::FloatLit(f) => n.kind == NodeKind::Float(f),
            TokenKind::ImaginaryLit(m) => n.kind == NodeKind::Imaginary(m),
            TokenKind::Punct(Punct::Minus) => exists|t2: Token| t2.loc == final(self).prev_loc && #[trigger] t2.ok_in(old(self).lexer.code@) && negated(t2.kind, n.kind),
            _ => true,
        }),
        /*@C12*/ r is Ok ==> (old(self).lexer.res_nl() matches Ok(t) && (closer(t) matches Some(x) ==> final(self).last_is(x))),
        /*@C22*/ r matches Ok(n) && !suppress_unparen_call && old(self).lexer.res_nl()->Ok_0.kind is Ident && n.kind is Ident ==> !final(self).must_cmd(),
        /*@C22*/ r matches Ok(n) && !suppress_unparen_call && old(self).lexer.res_nl()->Ok_0.kind is Const && n.kind is Const ==> !final(self).must_cmd(),
        /*@C22*/ r is Ok && (old(self).lexer.res_nl()->Ok_0.kind matches TokenKind::Ident(m) && resolve(old(self).scope@, m@) is Some) ==> (!(r->Ok_0.kind is Ident) || char_at(final(self).lexer.code@, final(self).lexer.pos as nat) == Some('(')),
//@ before 0 let loc = tok
        let ghost __t0 = tok.kind;
//@ call parse_command
        proof { /*@C22*/ assert(__t0 matches TokenKind::Ident(m) ==> resolve(self.scope@, m@) is None); }
//@ call parse_function_args
        proof { /*@C22*/ assert(__t0 matches TokenKind::Ident(m) ==> resolve(self.scope@, m@) is None || char_at(self.lexer.code@, self.lexer.pos as nat) == Some('(')); }
//@ level 2300
//@ attr #[verifier::rlimit(200)]
//@ body
    proof { reveal_strlit("__LINE__"); }
//@ fn Parser::parse_if
//@ level 6000
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ fn Parser::parse_if_then
//@ level 5900
//@ fn Parser::parse_unless
//@ level 6000
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ fn Parser::parse_while
//@ level 6000
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ call parse_expr
        proof { /*@C23*/ assert(self.suppress_do_block); }
//@ fn Parser::parse_for
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ body
    proof { reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2); }
//@ level 6000
//@ call parse_expr
        proof { /*@C23*/ assert(self.suppress_do_block); }
//@ fn Parser::parse_case
//@ level 6000
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ fn Parser::parse_return
//@ level 6000
//@ fn Parser::parse_break
//@ level 6000
//@ fn Parser::parse_next
//@ level 6000
//@ fn Parser::parse_break_sub
//@ level 5900
//@ call parse_mul_assign_rhs
        proof { /*@C22*/ assert(self.lexer.res() matches Ok(t) && can_start(t)); }
//@ fn Parser::parse_def
//@ level 6000
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ fn Parser::parse_class
//@ level 6000
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ fn Parser::parse_singleton_class
//@ level 6000
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(keyword(Reserved::End)),
//@ fn Parser::parse_class_def_name
//@ level 5900
//@ class Parser:prog
//@ fn Parser::parse_def_params
//@ class Parser:params
//@ level 5900
//@ requires
        /*@C09*/ fresh(old(self).scope@.last().lvar),
//@ ensures
        /*@C09*/ r matches Ok(v) ==> params_in(v@, final(self).scope@.last().lvar),
        /*@C09*/ r matches Ok(v) ==> params_ordered(v@),
//@ fn Parser::parse_formal_params
//@ class Parser:params
//@ attr #[verifier::rlimit(200)]
//@ attr #[verifier::loop_isolation(true)]
//@ requires
        /*@C12*/ crate::stdx::conv::<_, Option<Punct>>(terminator) matches Some(p) ==> old(self).opened_by(p),
        /*@C09*/ fresh(old(self).scope@.last().lvar),
//@ ensures
        /*@C12*/ r is Ok ==> (crate::stdx::conv::<_, Option<Punct>>(terminator) matches Some(p) ==> final(self).last_is(spell(p))),
        /*@C09*/ r matches Ok(v) ==> params_in(v@, final(self).scope@.last().lvar),
        /*@C09*/ r matches Ok(v) ==> params_ordered(v@),
//@ loop 0
            /*@C01*/ self.balanced_par(*old(self)),
            /*@C02*/ self.lexer.pos >= old(self).lexer.pos,
            /*@C01,C03*/ self.lexer.code == old(self).lexer.code,
            /*@C09*/ params_in(args@, self.scope@.last().lvar),
            /*@C09*/ params_ordered(args@),
            except_break /*@C09*/ params_group(args@) == state.ord_idx(),
//@ level 5800
//@ fn Parser::parse_destruct_param
//@ class Parser:params
//@ requires
        /*@C12*/ old(self).opened_by(Punct::RParen),
        /*@C01*/ old(self).scope@.last().lvar.param_num <= old(self).scope@.last().lvar.table.0@.len(),
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(spell(Punct::RParen)),
        /*@C09*/ r matches Ok(p) ==> p.kind is Destruct && put_names(old(self).scope@.last().lvar, final(self).scope@.last().lvar, p.kind->Destruct_0@),
//@ loop 0
            /*@C09*/ put_names(old(self).scope@.last().lvar, self.scope@.last().lvar, idents@),
//@ fn Parser::parse_default_value
//@ level 5700
//@ call parse_arg
        proof { /*@C24*/ assert(self.suppress_mul_assign); }
//@ call parse_arg_bitand
        proof { /*@C24*/ assert(self.suppress_mul_assign); }
//@ fn Parser::alias_name
//@ level 6100
//@ fn Parser::parse_string_literal
//@ level 6000
//@ body
        broadcast use {begins_refl, begins_step};
        proof { reveal(nbytes); }
        let ghost __s = s;
//@ loop 0
            /*@C06*/ begins(rbytes(__s), rbytes(s)),
//@ ensures
        /*@C06*/ r matches Ok(n) ==> (if n.kind is InterporatedString { true } else { nbytes(n) matches Some(b) && begins(rbytes(s), b) }),
//@ requires
        /*@C20*/ old(self).lexer.clean(),
        /*@C01*/ old(self).lexer.pos >= 1,
//@ fn Parser::parse_interporated_string_literal
//@ level 5800
//@ ensures
        /*@C06*/ r matches Ok(n) ==> n.kind is InterporatedString,
//@ loop 0
            /*@C01*/ level <= self.lexer.pos,
//@ requires
        /*@C01*/ level <= old(self).lexer.pos,
        /*@C01,C03*/ level <= blen(old(self).lexer.code@),
//@ fn Parser::parse_template
//@ level 5700
//@ class Parser:prog
//@ ensures
        /*@C12*/ r is Ok ==> (old(self).lexer.res_nl() matches Ok(t) && (t.kind == TokenKind::Punct(Punct::LBrace) ==> final(self).last_is(spell(Punct::RBrace)))),
        /*@C20*/ r is Ok ==> final(self).lexer.clean(),
//@ fn Parser::parse_char_literal
//@ requires
        /*@C20*/ old(self).lexer.clean(),
//@ body
        proof { reveal(ch1); reveal(nbytes); lemma_plain(self.lexer.code@, self.lexer.pos as nat); }
//@ ensures
        /*@C06*/ r matches Ok(n) ==> (ch1(old(self).lexer.code@, old(self).lexer.pos as nat) matches Some(x) && nbytes(n) == Some(x.0) && final(self).lexer.pos == x.1),
//@ fn Parser::parse_percent_notation
//@ level 6000
//@ requires
        /*@C20*/ old(self).lexer.clean(),
//@ fn Parser::parse_heredocument
//@ level 6000
//@ requires
        /*@C20*/ old(self).lexer.clean(),
//@ fn Parser::here_double
//@ level 5900
//@ requires
        /*@C20*/ old(self).lexer.clean(),
        /*@C01*/ old(self).lexer.pos >= 1,
//@ fn Parser::here_command
//@ level 5900
//@ requires
        /*@C20*/ old(self).lexer.clean(),
        /*@C01*/ old(self).lexer.pos >= 1,
//@ fn Parser::parse_hash_literal
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(spell(Punct::RBrace)),
//@ level 6000
//@ fn Parser::parse_hash_pairs
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(spell(Punct::RBrace)),
//@ level 5990
//@ requires
        /*@C24*/ old(self).suppress_mul_assign,
        /*@C23*/ !old(self).suppress_do_block,
//@ fn Parser::parse_symbol
//@ level 6000
//@ requires
        /*@C20*/ old(self).lexer.clean(),
//@ fn Parser::parse_regexp
//@ level 6000
//@ requires
        /*@C20*/ old(self).lexer.clean(),
//@ fn Parser::parse_lambda_literal
//@ ensures
        /*@C12*/ r is Ok ==> final(self).last_is(spell(Punct::RBrace)) || final(self).last_is(keyword(Reserved::End)),
//@ level 6000
//@ fn Parser::new_with_range
//@ requires
        /*@C01,C03*/ isb(self.lexer.code@, pos as nat),
        /*@C01,C03*/ isb(self.lexer.code@, end as nat),
        /*@C01*/ pos <= end,
//@ ensures
        /*@C01,C03*/ r.pwf(),
        /*@C20*/ r.lexer.clean(),
        /*@C01*/ r.lexer.pos == pos,
        /*@C10*/ r.scope@ == self.scope@,
        /*@C10*/ r.loop_stack@.len() == 0,
        /*@C01,C03*/ r.lexer.code@ == crate::strmodel::sub(self.lexer.code@, 0, end as nat),
//@ fn Parser::new
//@ nodefault
//@ requires
        /*@C01,C03*/ blen(code@) <= i32::MAX,
        /*@C01*/ !(scope.kind is For),
//@ ensures
        /*@C03*/ r matches Ok(x) ==> x.0.ok_in(code@) && x.2.ok_in(code@),
        /*@C03*/ r matches Err(e) ==> e.ok_in(code@),
//@ fn parse
//@ nodefault
//@ requires
        /*@C01,C03*/ blen(code@) <= i32::MAX,
        /*@C01*/ !(parse_context.kind is For),
//@ fn Parser::parse_program
//@ nodefault
//@ requires
        /*@C01,C03*/ blen(code@) <= i32::MAX,
//@ fn Parser::parse_program_eval
//@ nodefault
//@ requires
        /*@C01,C03*/ blen(code@) <= i32::MAX,
//@ fn Parser::parse_program_binding
//@ nodefault
//@ requires
        /*@C01,C03*/ blen(code@) <= i32::MAX,

//@ fn callsite:Node::new_mul_assign
//@ requires
        /*@C24*/ forall|j: int| 0 <= j < $0@.len() ==> target(#[trigger] $0@[j]),
//@ fn callsite:Node::new_assign_op
//@ requires
        /*@C24*/ target($1),
//@ fn callsite:Node::new_lvar
//@ requires
        /*@C07*/ self.extern_context is None ==> (resolve(self.scope@, $0@) matches Some(k) && k == $1),
