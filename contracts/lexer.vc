//@ fn class:Lexer:mut
//@ requires
        /*@C01,C03*/ old(self).wf0(),
        /*@C01*/ old(self).pos >= 1,
//@ ensures
        /*@C01,C03*/ final(self).wf0(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).same_buf(*old(self)),
        /*@C02*/ old(self).pos <= final(self).pos,
//@ loop 0
            /*@C01,C03*/ self.wf0(),
            /*@C01*/ self.pos >= 1,
            /*@C01,C03*/ self.code == old(self).code,
            /*@C20*/ self.heredoc_pos == old(self).heredoc_pos,
            /*@C20*/ self.same_buf(*old(self)),
            /*@C02*/ old(self).pos <= self.pos,
//@ decreases
blen(self.code@) - self.pos
//@ fn class:Lexer:low
//@ requires
        /*@C01,C03*/ old(self).wf0(),
//@ ensures
        /*@C01,C03*/ final(self).wf0(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).same_buf(*old(self)),
        /*@C02*/ old(self).pos <= final(self).pos,
//@ loop 0
            /*@C01,C03*/ self.wf0(),
            /*@C01,C03*/ self.code == old(self).code,
            /*@C20*/ self.heredoc_pos == old(self).heredoc_pos,
            /*@C20*/ self.same_buf(*old(self)),
            /*@C02*/ old(self).pos <= self.pos,
//@ decreases
blen(self.code@) - self.pos
//@ fn class:Lexer:ref
//@ requires
        /*@C01,C03*/ self.wf0(),
        /*@C01*/ self.pos >= 1,
//@ fn class:Lexer:rlow
//@ requires
        /*@C01,C03*/ self.wf0(),

//@ fn check_reserved
//@ ensures
        /*@C15*/ r matches Some(k) ==> keyword(k) == maybe_reserved@,
        /*@C15*/ r is None ==> !is_keyword(maybe_reserved@),
//@ body
        proof {
            assert forall|r: Reserved| #[trigger] keyword(r) == keyword(r) implies crate::dep_enum_iterator::all_of::<Reserved>().contains(r) by { crate::dep_enum_iterator::a_all_of::<Reserved>(r); }
        }
//@ loop 0
            /*@C15*/ __it0.seq() == crate::dep_enum_iterator::all_of::<Reserved>(),
            /*@C15*/ forall|j: int| 0 <= j < __it0.index@ ==> keyword(#[trigger] __it0.seq()[j]) != maybe_reserved@,
//@ fn Lexer::new
//@ ret r
//@ requires
        /*@C01,C03*/ blen(code@) <= i32::MAX,
//@ ensures
        /*@C01,C03*/ r.wf(),
        /*@C20*/ r.clean(),
        /*@C01,C03*/ r.code == code,
        /*@C01*/ r.pos == 0,
//@ fn Lexer::new_with_range
//@ class Lexer:rlow
//@ requires
        /*@C01,C03*/ isb(self.code@, pos as nat),
        /*@C01,C03*/ isb(self.code@, end as nat),
        /*@C01*/ pos <= end,
//@ ensures
        /*@C01,C03*/ r.wf(),
        /*@C20*/ r.clean(),
        /*@C01*/ r.pos == pos,
        /*@C01,C03*/ r.code@ == crate::strmodel::sub(self.code@, 0, end as nat),
//@ fn Lexer::error_unexpected
//@ class Lexer:rlow
//@ requires
        /*@C01,C03*/ isb(self.code@, pos as nat),
//@ ensures
        /*@C03*/ r.1 == Loc(pos, pos),
//@ fn Lexer::error_eof
//@ ensures
        /*@C03*/ r.1 == Loc(pos, pos),
//@ fn Lexer::error_parse
//@ ensures
        /*@C03*/ r.1 == Loc(pos, pos),
//@ fn Lexer::current_slice
//@ class Lexer:rlow
//@ ensures
        /*@C01,C03*/ r@ == crate::strmodel::sub(self.code@, self.token_start_pos as nat, self.pos as nat),
//@ fn Lexer::get_line
//@ class Lexer:rlow
//@ requires
        /*@C01,C03*/ isb(self.code@, (pos + 1) as nat),
        /*@C01*/ pos < usize::MAX,
//@ loop 0
            /*@C01*/ __r0 <= __it0.index@,
            /*@C01*/ __it0.index@ <= i32::MAX,
//@ fn Lexer::get_token
//@ class Lexer:low
//@ noensdefault
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C01,C03*/ final(self).wf0(),
        /*@C20*/ final(self).clean(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C02*/ final(self).pos >= old(self).pos,
        /*@C20*/ r == old(self).res(),
        /*@C20*/ r is Ok ==> final(self).pos as nat == lexpos(old(self).code@, old(self).pos as nat, old(self).heredoc_pos as nat),
        /*@C02*/ r matches Ok(t) ==> (!tok_eof(t) ==> final(self).pos > old(self).pos),
        /*@C03*/ r.ok_in(old(self).code@),
//@ fn Lexer::peek_token
//@ class Lexer:low
//@ noensdefault
//@ requires
        /*@C01,C03*/ old(self).wf(),
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C01,C03*/ final(self).wf(),
        /*@C20*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).pos == old(self).pos,
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C20*/ final(self).buf_skip_lt == old(self).buf_skip_lt,
        /*@C20*/ r == old(self).res(),
        /*@C03*/ r.ok_in(old(self).code@),
//@ fn Lexer::peek_token_skip_lt
//@ class Lexer:low
//@ noensdefault
//@ requires
        /*@C01,C03*/ old(self).wf(),
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C01,C03*/ final(self).wf(),
        /*@C20*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).pos == old(self).pos,
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C20*/ final(self).buf == old(self).buf,
        /*@C20*/ r == old(self).res_nl(),
        /*@C01*/ r matches Ok(t) ==> !tok_lt(t),
        /*@C03*/ r.ok_in(old(self).code@),
//@ loop 0
            /*@C20*/ self.res_nl() == old(self).res_nl(),
//@ loopbody 0
            proof { lemma_lex_nl(self.code@, self.pos as nat, self.heredoc_pos as nat); }
//@ fn Lexer::trailing_space
//@ class Lexer:rlow
//@ ensures
        /*@C22*/ r == space_at(self.code@, self.pos as nat),
//@ fn Lexer::trailing_lparen
//@ class Lexer:rlow
//@ ensures
        /*@C22*/ r == (char_at(self.code@, self.pos as nat) == Some('(')),
//@ fn Lexer::has_trailing_space
//@ class Lexer:rlow
//@ ensures
        /*@C22*/ r == space_at(self.code@, (tok.loc.1 + 1) as nat),
//@ body
        proof { lemma_char_at_isb(self.code@, (tok.loc.1 + 1) as nat); }
//@ fn Lexer::get_regexp
//@ class Lexer:low
//@ ensures
        /*@C01*/ r matches Ok(t) ==> t.kind is Regex || t.kind is OpenRegex,
        /*@C02*/ r is Ok ==> final(self).pos > old(self).pos,
//@ fn Lexer::save_state
//@ class Lexer:rlow
//@ ensures
        /*@C01*/ r == (self.token_start_pos, self.pos),
//@ fn Lexer::restore_state
//@ nodefault
//@ ensures
        /*@C20*/ final(self).token_start_pos == state.0,
        /*@C01*/ final(self).pos == state.1,
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).same_buf(*old(self)),
//@ fn Lexer::flush
//@ nodefault
//@ ensures
        /*@C20*/ final(self).clean(),
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C01*/ final(self).pos == old(self).pos,
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
//@ fn Lexer::read_token
//@ attr #[verifier::rlimit(200)]
//@ class Lexer:low
//@ trust
        r == old(self).res(),
        final(self).pos as nat == lexpos(old(self).code@, old(self).pos as nat, old(self).heredoc_pos as nat),
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C02*/ r matches Ok(t) ==> (!tok_eof(t) ==> final(self).pos > old(self).pos),
//@ fn Lexer::read_global_var
//@ requires
        /*@C01*/ old(self).token_start_pos < old(self).pos,
//@ loop 0
            /*@C01*/ id <= MAX_NTH_REF,
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
//@ fn Lexer::read_identifier
//@ requires
        /*@C01*/ old(self).token_start_pos < old(self).pos,
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
//@ fn Lexer::read_method_name
//@ class Lexer:low
//@ noensdefault
//@ ensures
        /*@C01,C03*/ final(self).wf0(),
        /*@C20*/ final(self).clean(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C02*/ final(self).pos >= old(self).pos,
        /*@C02*/ r is Ok ==> final(self).pos > old(self).pos,
        /*@C03*/ r.ok_in(old(self).code@),
//@ loop 0
            nodefault
            /*@C01,C03*/ self.wf0(),
            /*@C20*/ self.clean(),
            /*@C01,C03*/ self.code == old(self).code,
            /*@C20*/ self.heredoc_pos == old(self).heredoc_pos,
            /*@C02*/ old(self).pos <= self.pos,
//@ fn Lexer::read_symbol_literal
//@ class Lexer:low
//@ noensdefault
//@ ensures
        /*@C01,C03*/ final(self).wf0(),
        /*@C20*/ final(self).clean(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C02*/ final(self).pos >= old(self).pos,
        /*@C03*/ r.ok_in(old(self).code@),
//@ fn Lexer::read_method_ext
//@ class Lexer:low
//@ noensdefault
//@ ensures
        /*@C01,C03*/ final(self).wf0(),
        /*@C20*/ final(self).clean(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C02*/ final(self).pos >= old(self).pos,
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).code@),
//@ fn Lexer::read_string_literal_double
//@ requires
        /*@C01,C03*/ level <= blen(old(self).code@),
        /*@C01*/ level <= old(self).pos,
//@ ensures
        /*@C06*/ r matches Ok(t) ==> ({
            let x = dq(old(self).code@, old(self).pos as nat, old(self).heredoc_pos as nat, open, term, level as nat, Seq::<u8>::empty());
            match t.kind {
                TokenKind::StringLit(s) => rbytes(s) == x.b && final(self).pos == x.e && (x.k is Term || x.k is Eof && term is None),
                TokenKind::OpenString(s, _, l) => utf8(s@) == x.b && final(self).pos == x.e && x.k is Interp && x.l == l,
                _ => false,
            } }),
        /*@C01*/ r matches Ok(t) ==> (t.kind matches TokenKind::OpenString(_, _, l) ==> l <= final(self).pos && (open is None && level == 0 ==> l == 0)),
        /*@C01*/ r matches Ok(t) ==> t.kind is StringLit || t.kind is OpenString,
//@ fn Lexer::read_command_literal
//@ requires
        /*@C01,C03*/ level <= blen(old(self).code@),
        /*@C01*/ level <= old(self).pos,
//@ ensures
        /*@C01*/ r matches Ok(t) ==> (t.kind matches TokenKind::OpenCommand(_, _, l) ==> l <= final(self).pos && (open is None && level == 0 ==> l == 0)),
        /*@C01*/ r matches Ok(t) ==> t.kind is CommandLit || t.kind is OpenCommand,
//@ fn Lexer::read_interpolate
//@ class Lexer:low
//@ requires
        /*@C01,C03*/ level <= blen(old(self).code@),
        /*@C01*/ level <= old(self).pos,
//@ ensures
        /*@C06*/ r matches Ok(InterpolateState::Finished(s)) ==> ({
            let x = dq(old(self).code@, old(self).pos as nat, old(self).heredoc_pos as nat, open, term, level as nat, Seq::<u8>::empty());
            rbytes(s) == x.b && final(self).pos == x.e && (x.k is Term || x.k is Eof && term is None) }),
        /*@C06*/ r matches Ok(InterpolateState::NewInterpolation(s, l)) ==> ({
            let x = dq(old(self).code@, old(self).pos as nat, old(self).heredoc_pos as nat, open, term, level as nat, Seq::<u8>::empty());
            rbytes(s) == x.b && final(self).pos == x.e && x.k is Interp && x.l == l }),
        /*@C01*/ r matches Ok(InterpolateState::NewInterpolation(_, l)) ==> l <= final(self).pos && (open is None && level == 0 ==> l == 0),
        /*@C01*/ r matches Ok(x) ==> !(x is FinishedRegex),
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).code@),
        /*@C01,C03*/ r matches Ok(InterpolateState::NewInterpolation(_, l)) ==> l <= blen(old(self).code@),
//@ body
        let ghost __l0 = level;
//@ loop 0
            /*@C06*/ dq(old(self).code@, self.pos as nat, old(self).heredoc_pos as nat, open, term, level as nat, rbytes(s))
                == dq(old(self).code@, old(self).pos as nat, old(self).heredoc_pos as nat, open, term, __l0 as nat, Seq::<u8>::empty()),
            /*@C01*/ level <= self.pos,
            /*@C01*/ open is None && __l0 == 0 ==> level == 0,
            /*@C01,C03*/ level <= blen(old(self).code@),
//@ loopbody 0
            proof { lemma_dq(old(self).code@, self.pos as nat, old(self).heredoc_pos as nat, open, term, level as nat, rbytes(s)); }
//@ fn Lexer::read_string_literal_single
//@ class Lexer:low
//@ ensures
        /*@C06*/ r matches Ok(t) ==> (sq(old(self).code@, old(self).pos as nat, open, term, escape_backslash, 0, Seq::<char>::empty()) matches Some(x) && t@ == x.0 && final(self).pos == x.1),
//@ body
        proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ loop 0
            /*@C06*/ sq(old(self).code@, self.pos as nat, open, term, escape_backslash, level as int, s@) == sq(old(self).code@, old(self).pos as nat, open, term, escape_backslash, 0, Seq::<char>::empty()),
            /*@C01*/ 0 <= level <= self.pos - old(self).pos,
//@ fn Lexer::read_unicode_escape_sequence
//@ class Lexer:low
//@ ensures
        /*@C06*/ r is Ok ==> ((if strict { uni4(old(self).code@, old(self).pos as nat) } else { uni1(old(self).code@, old(self).pos as nat) })
            matches Some(x) && rbytes(*final(s)) == rbytes(*old(s)) + x.0 && final(self).pos == x.1),
        /*@C02*/ r is Ok ==> final(self).pos > old(self).pos,
//@ loop 0
            /*@C06*/ *s == *old(s) && self.pos == old(self).pos + __it0.index@,
            /*@C06*/ ({ let c = old(self).code@; let p = old(self).pos as nat;
                &&& __it0.index@ >= 1 ==> (hexv(c, p) matches Some(a) && (__it0.index@ == 1 ==> u == a))
                &&& __it0.index@ >= 2 ==> (hexv(c, p + 1) matches Some(b) && (__it0.index@ == 2 ==> u == hexv(c, p)->0 * 16 + b))
                &&& __it0.index@ >= 3 ==> (hexv(c, p + 2) matches Some(d) && (__it0.index@ == 3 ==> u == (hexv(c, p)->0 * 16 + hexv(c, p + 1)->0) * 16 + d))
                &&& __it0.index@ >= 4 ==> (hexv(c, p + 3) matches Some(e) && u == ((hexv(c, p)->0 * 16 + hexv(c, p + 1)->0) * 16 + hexv(c, p + 2)->0) * 16 + e)
            }),
            /*@C01*/ __it0.index@ == 0 ==> u == 0,
            /*@C02*/ __it0.index@ == 1 ==> u <= 0xf && self.pos > old(self).pos,
            /*@C02*/ __it0.index@ == 2 ==> u <= 0xff && self.pos > old(self).pos,
            /*@C02*/ __it0.index@ == 3 ==> u <= 0xfff && self.pos > old(self).pos,
            /*@C02*/ __it0.index@ >= 4 ==> u <= 0xffff && self.pos > old(self).pos,
//@ loop 1
            /*@C06*/ *s == *old(s),
            /*@C06*/ hexrun(old(self).code@, self.pos as nat, u as int) == hexrun(old(self).code@, old(self).pos as nat, 0),
            /*@C06*/ i > 0 <==> self.pos > old(self).pos,
            /*@C01*/ 0 <= i <= 6,
            /*@C02*/ i > 0 ==> self.pos > old(self).pos,
            /*@C01*/ i == 0 ==> u == 0,
            /*@C01*/ i == 1 ==> u <= 0xf,
            /*@C01*/ i == 2 ==> u <= 0xff,
            /*@C01*/ i == 3 ==> u <= 0xfff,
            /*@C01*/ i == 4 ==> u <= 0xffff,
            /*@C01*/ i == 5 ==> u <= 0xfffff,
            /*@C01*/ i == 6 ==> u <= 0xffffff,
//@ fn Lexer::read_char_literal
//@ class Lexer:low
//@ noensdefault
//@ ensures
        /*@C06*/ r is Ok ==> ({ let c = old(self).code@; let p = old(self).pos as nat;
            if char_at(c, p) == Some('\\') { esc(c, p + 1, rbytes(*old(buf))) matches Some(x) && rbytes(*final(buf)) == x.0 && final(self).pos == x.1 }
            else { char_at(c, p) matches Some(d) && rbytes(*final(buf)) == rbytes(*old(buf)) + char1(d) && final(self).pos == p + clen(d) } }),
        /*@C01,C03*/ final(self).wf0(),
        /*@C20*/ final(self).clean(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C02*/ final(self).pos >= old(self).pos,
        /*@C03*/ r.ok_in(old(self).code@),
//@ fn Lexer::check_postfix
//@ class Lexer:low
//@ fn Lexer::read_regexp_sub
//@ class Lexer:low
//@ loop 0
            /*@C01*/ -(self.pos - old(self).pos) <= char_class <= self.pos - old(self).pos,
//@ ensures
        /*@C01*/ r matches Ok(x) ==> !(x is Finished),
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).code@),
        /*@C01*/ r matches Ok(InterpolateState::NewInterpolation(_, l)) ==> l == 0,
        /*@C02*/ r is Ok ==> final(self).pos > old(self).pos,
//@ fn Lexer::get_percent_notation
//@ class Lexer:low
//@ ensures
        /*@C01*/ r matches Ok(t) ==> t.kind is PercentNotation || t.kind is StringLit || t.kind is OpenString,
        /*@C01*/ r matches Ok(t) ==> (t.kind matches TokenKind::OpenString(_, _, l) ==> l <= final(self).pos),
        /*@C02*/ r is Ok ==> final(self).pos > old(self).pos,
//@ fn Lexer::read_escaped_char
//@ class Lexer:low
//@ ensures
        /*@C06*/ r is Ok ==> (esc(old(self).code@, old(self).pos as nat, rbytes(*old(buf))) matches Some(x) && rbytes(*final(buf)) == x.0 && final(self).pos == x.1),
//@ loop 0
            /*@C06*/ unis(old(self).code@, self.pos as nat, rbytes(*buf)) == unis(old(self).code@, (old(self).pos + 2) as nat, rbytes(*old(buf))),
//@ loopbody 0
            let ghost __b = *buf;
            let ghost __p = self.pos;
//@ loop 1
            /*@C06*/ unis(old(self).code@, self.pos as nat, rbytes(*buf)) == unis(old(self).code@, __p as nat, rbytes(__b)) && *buf == __b,
            /*@C02*/ __p <= self.pos,
//@ fn Lexer::read_heredocument
//@ attr #[verifier::rlimit(100)]
//@ class Lexer:low
//@ noensdefault
//@ ensures
        /*@C01,C03*/ final(self).wf0(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C02*/ final(self).pos >= old(self).pos,
        /*@C20*/ final(self).same_buf(*old(self)),
        /*@C20*/ final(self).heredoc_pos >= old(self).heredoc_pos,
        /*@C20*/ r is Err ==> final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).code@),
        /*@C01,C03*/ r matches Ok(x) ==> old(self).pos < x.1 <= x.2 && isb(old(self).code@, x.1 as nat) && isb(old(self).code@, x.2 as nat),
//@ loop 0
            nodefault
            /*@C01,C03*/ self.wf0(),
            /*@C01,C03*/ self.code == old(self).code,
            /*@C20*/ self.heredoc_pos == old(self).heredoc_pos,
            /*@C20*/ self.same_buf(*old(self)),
            /*@C02*/ save.1 <= self.pos,
            /*@C01*/ save.1 < heredoc_start <= heredoc_end <= self.pos,
            /*@C01,C03*/ isb(self.code@, heredoc_start as nat),
            /*@C01,C03*/ isb(self.code@, heredoc_end as nat),
//@ fn Lexer::peek
//@ class Lexer:rlow
//@ ensures
        /*@C01,C03*/ r == char_at(self.code@, self.pos as nat),
//@ fn Lexer::peek2
//@ class Lexer:rlow
//@ ensures
        /*@C01,C03*/ r == (match char_at(self.code@, self.pos as nat) { Some(c) => char_at(self.code@, self.pos as nat + clen(c)), None => None }),
//@ fn Lexer::peek3
//@ class Lexer:rlow
//@ fn Lexer::is_assign_ext
//@ class Lexer:rlow
//@ fn Lexer::get
//@ class Lexer:low
//@ ensures
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C02*/ r matches Ok(c) ==> char_at(old(self).code@, old(self).pos as nat) == Some(c) && final(self).pos == old(self).pos + clen(c),
        /*@C02*/ r is Err ==> final(self).pos == old(self).pos && old(self).pos == blen(old(self).code@),
//@ fn Lexer::consume
//@ class Lexer:low
//@ ensures
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C01,C03*/ r == (char_at(old(self).code@, old(self).pos as nat) == Some(expect)),
        /*@C01*/ final(self).pos == old(self).pos + (if r { clen(expect) } else { 0 }),
//@ fn Lexer::consume_ident
//@ class Lexer:low
//@ ensures
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C03*/ r.start == old(self).pos && r.end == final(self).pos,
//@ loop 0
            /*@C20*/ self.token_start_pos == old(self).token_start_pos,
//@ fn Lexer::consume_newline
//@ class Lexer:low
//@ ensures
        /*@C06*/ r ==> final(self).pos == (if old(self).heredoc_pos > old(self).pos + 1 { old(self).heredoc_pos as int } else { old(self).pos + 1 }),
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C01,C03*/ r == (char_at(old(self).code@, old(self).pos as nat) == Some('\n')),
        /*@C02*/ r ==> final(self).pos > old(self).pos,
        /*@C01*/ !r ==> final(self).pos == old(self).pos,
//@ fn Lexer::consume_cont_line
//@ class Lexer:low
//@ ensures
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C02*/ r ==> final(self).pos > old(self).pos,
        /*@C01*/ !r ==> final(self).pos == old(self).pos,
//@ fn Lexer::consume_numeric
//@ class Lexer:low
//@ ensures
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C02*/ r matches Some(c) ==> sp_digit(c) && char_at(old(self).code@, old(self).pos as nat) == Some(c) && final(self).pos == old(self).pos + 1,
        /*@C02*/ r is None ==> final(self).pos == old(self).pos && !(char_at(old(self).code@, old(self).pos as nat) matches Some(c) && sp_digit(c)),
//@ fn Lexer::consume_octal
//@ class Lexer:low
//@ ensures
        /*@C06*/ octv(old(self).code@, old(self).pos as nat) == (match r { Some(n) => Some(n as int), None => None }),
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C02*/ r matches Some(n) ==> n <= 7 && final(self).pos == old(self).pos + 1,
        /*@C02*/ r is None ==> final(self).pos == old(self).pos,
//@ fn Lexer::consume_hex
//@ class Lexer:low
//@ ensures
        /*@C06*/ r is None ==> hexv(old(self).code@, old(self).pos as nat) is None,
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C02*/ r matches Some(n) ==> n <= 15 && final(self).pos == old(self).pos + 1,
        /*@C05,C06*/ r matches Some(n) ==> (char_at(old(self).code@, old(self).pos as nat) matches Some(c) && sp_hex(c) && n == digit(c)),
        /*@C02*/ r is None ==> final(self).pos == old(self).pos,
//@ fn Lexer::expect_hex
//@ class Lexer:low
//@ ensures
        /*@C06*/ r is Err ==> hexv(old(self).code@, old(self).pos as nat) is None,
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C02*/ r matches Ok(n) ==> n <= 15 && final(self).pos == old(self).pos + 1,
        /*@C05,C06*/ r matches Ok(n) ==> (char_at(old(self).code@, old(self).pos as nat) matches Some(c) && sp_hex(c) && n == digit(c)),
        /*@C02*/ r is Err ==> final(self).pos == old(self).pos,
//@ fn Lexer::consume_whitespace
//@ class Lexer:low
//@ ensures
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C02*/ r ==> final(self).pos > old(self).pos,
        /*@C01*/ !r ==> final(self).pos == old(self).pos,
//@ fn Lexer::consume_tri_octal
//@ class Lexer:low
//@ requires
        /*@C01*/ '0' <= first_ch <= '7',
//@ ensures
        /*@C06*/ r matches Some(n) ==> (n as int, final(self).pos as nat) == oct(old(self).code@, old(self).pos as nat, first_ch),
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C01*/ r is Some,
//@ loop 0
            /*@C06*/ __it0.index@ == 0 ==> self.pos == old(self).pos && o == first_ch as int - '0' as int,
            /*@C06*/ __it0.index@ == 1 ==> self.pos == old(self).pos + 1 && (octv(old(self).code@, old(self).pos as nat) matches Some(b) && o == (first_ch as int - '0' as int) * 8 + b),
            /*@C06*/ __it0.index@ >= 2 ==> (o as int, self.pos as nat) == oct(old(self).code@, old(self).pos as nat, first_ch),
            /*@C20*/ self.token_start_pos == old(self).token_start_pos,
            /*@C01*/ __it0.index@ == 0 ==> o <= 7,
            /*@C01*/ __it0.index@ == 1 ==> o <= 63,
//@ fn Lexer::peek_digit
//@ class Lexer:rlow
//@ fn Lexer::skip_whitespace
//@ class Lexer:low
//@ ensures
        /*@C20*/ final(self).token_start_pos == final(self).pos,
        /*@C02*/ r is Some ==> final(self).pos > old(self).pos,
        /*@C01*/ r matches Some(t) ==> tok_lt(t),
//@ loop 0
            /*@C03*/ res.ok_in(self.code@),
            /*@C02*/ res is Some ==> self.pos > old(self).pos && tok_lt(res->0),
//@ fn Lexer::goto_eol
//@ class Lexer:low
//@ ensures
        /*@C20*/ final(self).token_start_pos == old(self).token_start_pos,
        /*@C01,C03*/ final(self).pos == blen(final(self).code@) || char_at(final(self).code@, final(self).pos as nat) == Some('\n'),
//@ fn Lexer::cur_loc
//@ ensures
        /*@C01*/ r.0 == self.token_start_pos,
        /*@C03*/ r.1 == if self.token_start_pos < self.pos { (self.pos - 1) as int } else { self.token_start_pos as int },
//@ fn Lexer::new_numlit
//@ noensdefault
//@ requires
        /*@C01*/ self.pos >= 1,
//@ ensures
        /*@C03*/ loc_ok(r.loc, self.code@),
        /*@C03*/ r.loc.0 == self.token_start_pos && (self.token_start_pos < self.pos ==> r.loc.1 + 1 == self.pos),
        /*@C05*/ r.kind == TokenKind::IntegerLit(num),
//@ fn Lexer::new_bignumlit
//@ noensdefault
//@ requires
        /*@C01*/ self.pos >= 1,
//@ ensures
        /*@C03*/ loc_ok(r.loc, self.code@),
        /*@C03*/ r.loc.0 == self.token_start_pos && (self.token_start_pos < self.pos ==> r.loc.1 + 1 == self.pos),
        /*@C05*/ r.kind == TokenKind::BignumLit(num),
//@ fn Lexer::new_floatlit
//@ noensdefault
//@ requires
        /*@C01*/ self.pos >= 1,
//@ ensures
        /*@C03*/ loc_ok(r.loc, self.code@),
        /*@C03*/ r.loc.0 == self.token_start_pos && (self.token_start_pos < self.pos ==> r.loc.1 + 1 == self.pos),
        /*@C05*/ r.kind == TokenKind::FloatLit(num),
//@ fn Lexer::new_imaginarylit
//@ noensdefault
//@ requires
        /*@C01*/ self.pos >= 1,
//@ ensures
        /*@C03*/ loc_ok(r.loc, self.code@),
        /*@C03*/ r.loc.0 == self.token_start_pos && (self.token_start_pos < self.pos ==> r.loc.1 + 1 == self.pos),
        /*@C05*/ r.kind == TokenKind::ImaginaryLit(num),
//@ fn Lexer::new_ident
//@ requires
        /*@C15*/ !is_keyword(conv::<_, String>(ident)@),
        /*@C01*/ text_at(conv::<_, String>(ident)@, *self),
//@ ensures
        /*@C01*/ lv0(r),
//@ fn Lexer::new_instance_var
//@ requires
        /*@C01*/ text_at(conv::<_, String>(ident)@, *self),
//@ ensures
        /*@C01*/ lv0(r),
//@ fn Lexer::new_class_var
//@ requires
        /*@C01*/ text_at(conv::<_, String>(ident)@, *self),
//@ ensures
        /*@C01*/ lv0(r),
//@ fn Lexer::new_const
//@ requires
        /*@C15*/ !is_keyword(conv::<_, String>(ident)@),
        /*@C01*/ text_at(conv::<_, String>(ident)@, *self),
//@ ensures
        /*@C01*/ lv0(r),
//@ fn Lexer::new_punct
//@ requires
        /*@C15*/ reads(*self, punc),
        /*@C15*/ longest(punc, *self),
//@ body
        proof { lemma_reads(*self, punc); }
//@ ensures
        /*@C01*/ lv0(r),
//@ fn Lexer::new_reserved
//@ requires
        /*@C15*/ text_at(keyword(ident), *self),
//@ ensures
        /*@C01*/ lv0(r),
//@ fn Lexer::new_numbered_param
//@ requires
        /*@C01*/ '0' <= i <= '9',
//@ ensures
        /*@C01*/ lv0(r),
//@ fn Lexer::new_stringlit
//@ ensures
        /*@C01*/ r.kind == TokenKind::StringLit(conv(string)),
//@ fn Lexer::new_regexlit
//@ ensures
        /*@C01*/ r.kind is Regex,
//@ fn Lexer::new_commandlit
//@ ensures
        /*@C01*/ r matches Ok(t) ==> t.kind is CommandLit,
//@ fn Lexer::new_open_reg
//@ ensures
        /*@C01*/ r.kind is OpenRegex,
//@ fn Lexer::new_percent
//@ ensures
        /*@C01*/ r.kind is PercentNotation,
//@ fn Lexer::new_open_string
//@ requires
        /*@C01,C03*/ level <= blen(self.code@),
//@ ensures
        /*@C01*/ r.kind matches TokenKind::OpenString(t, d, l) && t == s && d == delimiter && l == level,
//@ fn Lexer::new_open_command
//@ requires
        /*@C01,C03*/ level <= blen(self.code@),
//@ ensures
        /*@C01*/ r.kind matches TokenKind::OpenCommand(_, d, l) && d == delimiter && l == level,
//@ fn Lexer::new_line_term
//@ ensures
        /*@C01*/ lv0(r),
        /*@C01*/ tok_lt(r),
//@ fn Lexer::new_eof
//@ class Lexer:rlow
//@ ensures
        /*@C01*/ lv0(r),
        /*@C01*/ tok_eof(r),

//@ fn RubyString::as_str
//@ ensures
        /*@C06*/ r matches Ok(t) ==> utf8(t@) == rbytes(*self),
        /*@C03*/ r matches Err(e) ==> e.1 == Loc(0, 0),
//@ fn RubyString::as_string
//@ ensures
        /*@C06*/ r matches Ok(t) ==> utf8(t@) == rbytes(self),
        /*@C03*/ r matches Err(e) ==> e.1 == Loc(0, 0),

//@ fn Lexer::read_number_literal
//@ class Lexer:low
//@ noensdefault
//@ attr #[verifier::rlimit(40)]
//@ requires
        /*@C01*/ old(self).pos >= 1,
        /*@C05*/ sp_numeric(ch) && old(self).pos >= clen(ch) && char_at(old(self).code@, (old(self).pos - clen(ch)) as nat) == Some(ch),
        /*@C05*/ old(self).token_start_pos + clen(ch) == old(self).pos,
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C01,C03*/ final(self).wf0(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).same_buf(*old(self)),
        /*@C02*/ old(self).pos <= final(self).pos,
        /*@C03*/ r matches Ok(t) ==> loc_ok(t.loc, old(self).code@),
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).code@),
        /*@C05*/ r.ok_in(old(self).code@),
//@ body
        broadcast use {b_plain_next, b_float_push};
        reveal(number);
        let ghost __p = (self.pos - clen(ch)) as nat;
        proof { lemma_char_at_isb(self.code@, __p); lemma_plain_empty(self.code@, __p); }
//@ loop 0
            /*@C05*/ self.token_start_pos == old(self).token_start_pos,
            /*@C05*/ s@ == text_of(self.code@, __p, self.pos as nat),
            /*@C05*/ float_flag == is_float(s@),
            /*@C05*/ s@.len() > 0 && s@[0] == ch,
//@ loop 1
            /*@C05*/ self.token_start_pos == old(self).token_start_pos,
            /*@C05*/ s@ == text_of(self.code@, __p, self.pos as nat),
            /*@C05*/ is_float(s@),
//@ fn Lexer::read_hex_number
//@ class Lexer:low
//@ noensdefault
//@ requires
        /*@C01*/ old(self).pos >= 1,
        /*@C05*/ old(self).token_start_pos + 2 == old(self).pos && char_at(old(self).code@, old(self).token_start_pos as nat) == Some('0') && char_at(old(self).code@, (old(self).token_start_pos + 1) as nat) == Some('x'),
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C01,C03*/ final(self).wf0(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).same_buf(*old(self)),
        /*@C02*/ old(self).pos <= final(self).pos,
        /*@C03*/ r matches Ok(t) ==> loc_ok(t.loc, old(self).code@),
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).code@),
        /*@C05*/ r.ok_in(old(self).code@),
//@ body
        broadcast use b_sub_head;
        reveal(number);
//@ loop 0
            /*@C05*/ self.token_start_pos == old(self).token_start_pos,
            /*@C05*/ self.pos > old(self).pos,
//@ fn Lexer::read_octal_number
//@ class Lexer:low
//@ noensdefault
//@ requires
        /*@C01*/ old(self).pos >= 1,
        /*@C05*/ old(self).token_start_pos + 2 == old(self).pos && char_at(old(self).code@, old(self).token_start_pos as nat) == Some('0') && char_at(old(self).code@, (old(self).token_start_pos + 1) as nat) == Some('o'),
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C01,C03*/ final(self).wf0(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).same_buf(*old(self)),
        /*@C02*/ old(self).pos <= final(self).pos,
        /*@C03*/ r matches Ok(t) ==> loc_ok(t.loc, old(self).code@),
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).code@),
        /*@C05*/ r.ok_in(old(self).code@),
//@ body
        broadcast use b_sub_head;
        reveal(number);
//@ loop 0
            /*@C05*/ self.token_start_pos == old(self).token_start_pos,
            /*@C05*/ self.pos > old(self).pos,
//@ fn Lexer::read_bin_number
//@ class Lexer:low
//@ noensdefault
//@ requires
        /*@C01*/ old(self).pos >= 1,
        /*@C05*/ old(self).token_start_pos + 2 == old(self).pos && char_at(old(self).code@, old(self).token_start_pos as nat) == Some('0') && char_at(old(self).code@, (old(self).token_start_pos + 1) as nat) == Some('b'),
//@ ensures
        /*@C01*/ r matches Ok(t) ==> lv0(t),
        /*@C01,C03*/ final(self).wf0(),
        /*@C01,C03*/ final(self).code == old(self).code,
        /*@C20*/ final(self).heredoc_pos == old(self).heredoc_pos,
        /*@C20*/ final(self).same_buf(*old(self)),
        /*@C02*/ old(self).pos <= final(self).pos,
        /*@C03*/ r matches Ok(t) ==> loc_ok(t.loc, old(self).code@),
        /*@C03*/ r matches Err(e) ==> e.ok_in(old(self).code@),
        /*@C05*/ r.ok_in(old(self).code@),
//@ body
        broadcast use b_sub_head;
        reveal(number);
//@ loop 0
            /*@C05*/ self.token_start_pos == old(self).token_start_pos,
            /*@C05*/ self.pos > old(self).pos,
//@ fn Lexer::new_global_var
//@ ensures
        /*@C01*/ lv0(r),
//@ fn Lexer::new_special_var
//@ ensures
        /*@C01*/ lv0(r),
//@ fn RubyString::new
//@ ensures
        /*@C06*/ rbytes(r) == Seq::<u8>::empty(),
//@ body
        proof { a_utf8_empty(); assert(forall|t: String| t@.len() == 0 ==> #[trigger] t@ =~= Seq::<char>::empty()); }
//@ fn RubyString::push_char
//@ ensures
        /*@C06*/ rbytes(*final(self)) == rbytes(*old(self)) + char1(ch),
//@ body
        broadcast use {a_utf8_push, a_char_to_string};
//@ end
        proof { assert(rbytes(*self) =~= rbytes(*old(self)) + char1(ch)); }
//@ fn RubyString::push_byte
//@ ensures
        /*@C06*/ rbytes(*final(self)) == rbytes(*old(self)) + byte1(b),
//@ fn <RubyStringasAddAssign<&str>>::add_assign
//@ ensures
        /*@C06*/ rbytes(*final(self)) == rbytes(*old(self)) + utf8(rhs@),
//@ body
        broadcast use {a_utf8_cat, a_str_bytes};
//@ end
        proof { assert(rbytes(*self) =~= rbytes(*old(self)) + utf8(rhs@)); }
//@ fn <RubyStringasAddAssign<&RubyString>>::add_assign
//@ ensures
        /*@C06*/ rbytes(*final(self)) == rbytes(*old(self)) + rbytes(*rhs),
//@ body
        broadcast use {a_utf8_cat, a_str_bytes};
//@ end
        proof { assert(rbytes(*self) =~= rbytes(*old(self)) + rbytes(*rhs)); }
