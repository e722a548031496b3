//@ fn Annot::new
//@ ensures
        /*@C03*/ r.kind == kind,
        /*@C03*/ r.loc == loc,
//@ fn Annot::loc
//@ ensures
        /*@C03*/ r == self.loc,
//@ fn Token::new_ident
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind == TokenKind::Ident(conv(ident)),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_instance_var
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind == TokenKind::InstanceVar(conv(ident)),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_const
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind == TokenKind::Const(conv(ident)),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_global_var
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind == TokenKind::GlobalVar(conv(ident)),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_numbered_param
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind matches TokenKind::NumberedParam(n, _) && n == i as u8,
        /*@C03*/ r.loc == loc,
//@ fn Token::new_reserved
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind == TokenKind::Reserved(ident),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_intlit
//@ noensdefault
//@ ensures
        /*@C05*/ r.kind == TokenKind::IntegerLit(num),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_bignumlit
//@ noensdefault
//@ ensures
        /*@C05*/ r.kind == TokenKind::BignumLit(num),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_floatlit
//@ noensdefault
//@ ensures
        /*@C05*/ r.kind == TokenKind::FloatLit(num),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_imaginarylit
//@ noensdefault
//@ ensures
        /*@C05*/ r.kind == TokenKind::ImaginaryLit(num),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_stringlit
//@ ensures
        /*@C03*/ r.kind == TokenKind::StringLit(string),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_open_string
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind == TokenKind::OpenString(conv(s), delimiter, level),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_open_command
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind == TokenKind::OpenCommand(conv(s), delimiter, level),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_open_reg
//@ ensures
        /*@C03*/ r.kind == TokenKind::OpenRegex(conv(s)),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_percent
//@ ensures
        /*@C03*/ r.kind == TokenKind::PercentNotation(kind, content),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_punct
//@ noensdefault
//@ ensures
        /*@C03*/ r.kind == TokenKind::Punct(punct),
        /*@C03*/ r.loc == loc,
//@ fn Token::new_line_term
//@ ensures
        /*@C03*/ r.kind == TokenKind::LineTerm,
        /*@C03*/ r.loc == loc,
//@ fn Token::new_eof
//@ ensures
        /*@C03*/ r.kind == TokenKind::Eof,
        /*@C03*/ r.loc == Loc(pos, pos),
//@ fn Token::is_line_term
//@ ensures
        /*@C01*/ r == tok_lt(*self),
//@ fn Token::is_eof
//@ ensures
        /*@C01*/ r == tok_eof(*self),
//@ fn Token::is_term
//@ ensures
        /*@C01*/ r == (tok_lt(*self) || tok_eof(*self)),
//@ fn Token::can_be_symbol
//@ ensures
        /*@C01*/ r is Some ==> !tok_lt(*self) && !tok_eof(*self),
//@ fn Reserved::to_str
//@ ensures
        /*@C15*/ r@ == keyword(*self),
