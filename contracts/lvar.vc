//@ fn LvarId::as_usize
//@ ret r
//@ ensures
        /*@C19*/ r == self.0,
//@ fn LvarId::as_u32
//@ ret r
//@ ensures
        /*@C19*/ r == self.0 as u32,
//@ fn LvarCollector::len
//@ ret r
//@ ensures
        /*@C07*/ r == self.table.0@.len(),
//@ fn LvarTable::push
//@ ensures
        /*@C07*/ final(self).0@ == old(self).0@.push(name),
//@ fn LvarTable::get_lvarid
//@ ret r
//@ ensures
        /*@C07*/ r matches Some(id) ==> id.0 < self.0@.len() && self.0@[id.0 as int]@ == name@ && names(*self)[id.0 as int] == name@ && names(*self).contains(name@),
        /*@C07*/ r is None ==> !names(*self).contains(name@),
//@ loop 0
            /*@C07*/ forall|j: int| 0 <= j < __k0 && (__r0 matches Some(x) ==> j < x) ==> (#[trigger] self.0@[j])@ != name@,
            /*@C07*/ __r0 matches Some(x) ==> self.0@[x as int]@ == name@ && names(*self)[x as int] == name@,
            /*@C07*/ __r0 matches Some(x) ==> names(*self).contains(name@),
//@ fn LvarCollector::insert
//@ ret r
//@ ensures
        /*@C07*/ names(old(self).table).contains(val@) ==> *final(self) == *old(self) && r.0 < old(self).table.0@.len() && old(self).table.0@[r.0 as int]@ == val@,
        /*@C07*/ !names(old(self).table).contains(val@) ==> names(final(self).table) =~= names(old(self).table).push(val@),
        /*@C07*/ !names(old(self).table).contains(val@) ==> r.0 == old(self).table.0@.len(),
        /*@C07*/ !names(old(self).table).contains(val@) ==> (forall|i: int| 0 <= i < old(self).table.0@.len() ==> #[trigger] final(self).table.0@[i] == old(self).table.0@[i]),
        /*@C07*/ *final(self) == (LvarCollector { table: final(self).table, ..*old(self) }),
//@ fn LvarCollector::insert_new
//@ ret r
//@ ensures
        /*@C07*/ r is None <==> names(old(self).table).contains(val@),
        /*@C07*/ r is None ==> *final(self) == *old(self),
        /*@C07*/ r matches Some(id) ==> id.0 == old(self).table.0@.len() && final(self).table.0@ == old(self).table.0@.push(val),
        /*@C07*/ *final(self) == (LvarCollector { table: final(self).table, ..*old(self) }),
//@ fn LvarCollector::insert_param
//@ ret r
//@ requires
        /*@C01*/ old(self).param_num <= old(self).table.0@.len(),
//@ ensures
        /*@C07*/ r is None <==> names(old(self).table).contains(val@),
        /*@C07*/ r is None ==> *final(self) == *old(self),
        /*@C09*/ r matches Some(id) ==> id.0 == old(self).param_num && final(self).param_num == old(self).param_num + 1
            && names(final(self).table) =~= names(old(self).table).insert(old(self).param_num as int, val@),
        /*@C09*/ r is Some ==> *final(self) == (LvarCollector { table: final(self).table, param_num: final(self).param_num, ..*old(self) }),
//@ before 0 self.param_num += 1
                proof { assert(self.table.0.len() == old(self).table.0@.len() + 1); }
//@ fn LvarCollector::insert_block_param
//@ ret r
//@ requires
        /*@C01*/ old(self).param_num <= old(self).table.0@.len(),
//@ ensures
        /*@C07*/ r is None <==> names(old(self).table).contains(val@),
        /*@C07*/ r is None ==> *final(self) == *old(self),
        /*@C09*/ r matches Some(id) ==> id.0 == old(self).param_num && final(self).param_num == old(self).param_num + 1
            && names(final(self).table) =~= names(old(self).table).insert(old(self).param_num as int, val@),
        /*@C09*/ r is Some ==> *final(self) == (LvarCollector { table: final(self).table, param_num: final(self).param_num, block: r, ..*old(self) }),
//@ fn LvarCollector::insert_kwrest_param
//@ ret r
//@ requires
        /*@C01*/ old(self).param_num <= old(self).table.0@.len(),
//@ ensures
        /*@C07*/ r is None <==> names(old(self).table).contains(val@),
        /*@C07*/ r is None ==> *final(self) == *old(self),
        /*@C09*/ r matches Some(id) ==> id.0 == old(self).param_num && final(self).param_num == old(self).param_num + 1
            && names(final(self).table) =~= names(old(self).table).insert(old(self).param_num as int, val@),
        /*@C09*/ r is Some ==> *final(self) == (LvarCollector { table: final(self).table, param_num: final(self).param_num, kwrest: r, ..*old(self) }),
//@ fn LvarCollector::insert_delegate_param
//@ ret r
//@ requires
        /*@C01*/ old(self).param_num <= old(self).table.0@.len(),
//@ ensures
        /*@C07*/ r is None <==> names(old(self).table).contains("..."@),
        /*@C07*/ r is None ==> *final(self) == *old(self),
        /*@C09*/ r matches Some(id) ==> id.0 == old(self).param_num && final(self).param_num == old(self).param_num + 1
            && names(final(self).table) =~= names(old(self).table).insert(old(self).param_num as int, "..."@),
        /*@C09*/ r is Some ==> *final(self) == (LvarCollector { table: final(self).table, param_num: final(self).param_num, forwarding_param: r, ..*old(self) }),
//@ fn LvarCollector::new
//@ ret r
//@ ensures
        /*@C07*/ r.table.0@.len() == 0, r.kw@.len() == 0, r.kwrest is None, r.block is None, r.forwarding_param is None, r.numbered_param is None, r.prohibit_numbered_param is None, r.param_num == 0,
//@ fn LvarTable::new
//@ ret r
//@ ensures
        /*@C07*/ r.0@.len() == 0,
//@ fn LvarTable::get
//@ ret r
//@ ensures
        /*@C07*/ r is Some <==> i < self.0@.len(),
        /*@C07*/ r matches Some(s) ==> s == self.0@[i as int],
//@ fn LvarCollector::kwrest_param
//@ ret r
//@ ensures
        /*@C07*/ r == self.kwrest,
//@ fn LvarCollector::block_param
//@ ret r
//@ ensures
        /*@C07*/ r == self.block,
//@ fn LvarCollector::block
//@ ret r
//@ ensures
        /*@C07*/ *r == self.block,
//@ fn LvarCollector::table
//@ ret r
//@ ensures
        /*@C07*/ *r == self.table.0,

//@ fn <LvarIdasFrom<usize>>::from
//@ ret r
//@ ensures
        /*@C19*/ r.0 == id,
//@ fn <usizeasFrom<LvarId>>::from
//@ ret r
//@ ensures
        /*@C19*/ r == id.0,
//@ fn <LvarIdasFrom<u32>>::from
//@ ret r
//@ ensures
        /*@C19*/ r.0 == id as usize,
