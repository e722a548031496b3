//@ fn SourceInfo::get_location
//@ external
//@ fn SourceInfo::get_line
//@ external
//@ fn SourceInfo::get_lines
//@ external
//@ fn SourceInfo::file_name
//@ external
//@ fn SourceInfo::short_file_name
//@ external
//@ fn SourceInfo::show_loc
//@ external
//@ fn SourceInfo::get_next_char
//@ external
//@ fn Loc::merge
//@ ret r
//@ ensures
        /*@C03*/ r == Loc(if self.0 <= loc.0 { self.0 } else { loc.0 }, if self.1 >= loc.1 { self.1 } else { loc.1 }),
