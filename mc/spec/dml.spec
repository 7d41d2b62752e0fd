rule iflags_ins
=
> []
= LOW_PRIORITY~1
> [LowPriority(@1)]
= HIGH_PRIORITY~1
> [HighPriority(@1)]
= DELAYED~1
> [Delayed(@1)]
= IGNORE~1
> [Ignore(@1)]
= LOW_PRIORITY~1 IGNORE~2
> [LowPriority(@1),Ignore(@2)]
= HIGH_PRIORITY~1 IGNORE~2
> [HighPriority(@1),Ignore(@2)]

rule iflags_rep
=
> []
= LOW_PRIORITY~1
> [LowPriority(@1)]
= DELAYED~1
> [Delayed(@1)]

rule itype
= INSERT~1 <iflags_ins:f>
> type_:Insert(@1),flags:$f
= REPLACE~1 <iflags_rep:f>
> type_:Replace(@1),flags:$f

rule into
= INTO~1
> Some(@1)
=
> None

rule icols
=
> []
= ( <idlist:l> )
> $l

rule row
= ( <elist:l> )
> $l

rule rows
= <row:a>
> [$a]
= <row:a> , <row:b>
> [$a,$b]
= <row:a> , <row:b> , <row:c>
> [$a,$b,$c]

rule pair
= <id:c> =~q <e:v>
> InsertReplaceSetPair{column:$c,equal_span:@q,value:$v}

rule pairs
= <pair:a>
> [$a]
= <pair:a> , <pair:b>
> [$a,$b]
= <pair:a> , <pair:b> , <pair:c>
> [$a,$b,$c]

rule returning
=
> None
= RETURNING~1 <sitems:i>
> Some((@1,$i))

rule isel
= SELECT~s <sflags:f> <sitems:i>
> Select{select_span:@s,flags:$f,select_exprs:$i,from_span:None,table_references:None,where_:None,group_by:None,having:None,window_span:None,order_by:None,limit:None,locking:None}
= SELECT~s <sitems:i> FROM~r <qname:t> <where:w> <group:g> <having:h> <order:o> <limit:l>
> Select{select_span:@s,flags:[],select_exprs:$i,from_span:Some(@r),table_references:Some([Table{identifier:$t,as_span:None,as_:None,index_hints:[]}]),where_:$w,group_by:$g,having:$h,window_span:None,order_by:$o,limit:$l,locking:None}

rule isource
= <icols:c> VALUES~v <rows:r>
> columns:$c,values:Some((@v,$r)),select:None,set:None
= <icols:c> VALUE~v <rows:r>
> columns:$c,values:Some((@v,$r)),select:None,set:None
= <icols:c> <isel:s>
> columns:$c,values:None,select:Some($s),set:None
= SET~s <pairs:p>
> columns:[],values:None,select:None,set:Some(InsertReplaceSet{set_span:@s,pairs:$p})

rule assign
= <id:a> = <e:v>
> ($a,$v)

rule assigns
= <assign:a>
> [$a]
= <assign:a> , <assign:b>
> [$a,$b]
= <assign:a> , <assign:b> , <assign:c>
> [$a,$b,$c]

rule ctarget
=
> None
= ( <idlist:l> )
> Columns{names:$l}
= ON~1 CONSTRAINT~1 <id:n>
> OnConstraint{on_constraint_span:@1,name:$n}

rule cwhere
=
> None
= WHERE~1 <e:a>
> Some((@1,$a))

rule caction
= DO~1 NOTHING~1
> DoNothing(@1)
= DO~1 UPDATE~1 SET~1 <assigns:s> <cwhere:w>
> DoUpdateSet{do_update_set_span:@1,sets:$s,where_:$w}

rule iconf
=
> on_duplicate_key_update:None,on_conflict:None
=[m!a] <odku:a>
> on_duplicate_key_update:Some($a),on_conflict:None
=[p!a] <onconf:a>
> on_duplicate_key_update:None,on_conflict:Some($a)

rule odku
= ON~1 DUPLICATE~1 KEY~1 UPDATE~1 <pairs:p>
> InsertReplaceOnDuplicateKeyUpdate{on_duplicate_key_update_span:@1,pairs:$p}

rule onconf
= ON~1 CONFLICT~1 <ctarget:t> <caction:a>
> OnConflict{on_conflict_span:@1,target:$t,action:$a}

rule insert
= <itype:t> <into:n> <qname:q> <isource:s> <iconf:c> <returning:r>
> InsertReplace(InsertReplace{$t,into_span:$n,table:$q,$s,$c,returning:$r})

rule uflags
=
> []
= LOW_PRIORITY~1
> [LowPriority(@1)]
= IGNORE~1
> [Ignore(@1)]
= LOW_PRIORITY~1 IGNORE~2
> [LowPriority(@1),Ignore(@2)]

rule uset
= <id:a> = <e:v>
> ([$a],$v)
= <id:a> . <id:b> = <e:v>
> ([$a,$b],$v)
= <id:a> . <qid:b> . <id:c> = <e:v>
> ([$a,$b,$c],$v)

rule usets
= <uset:a>
> [$a]
= <uset:a> , <uset:b>
> [$a,$b]
= <uset:a> , <uset:b> , <uset:c>
> [$a,$b,$c]

rule ureturning
=
> None
=[p!1] RETURNING~1 <sitems:i>
> Some((@1,$i))

rule update
= UPDATE~1 <uflags:f> <trefs:t> SET~2 <usets:s> <where:w> <ureturning:r>
> Update(Update{update_span:@1,flags:$f,tables:$t,set_span:@2,set:$s,where_:$w,returning:$r})

rule dflags
=
> []
= LOW_PRIORITY~1
> [LowPriority(@1)]
= QUICK~1
> [Quick(@1)]
= IGNORE~1
> [Ignore(@1)]
= LOW_PRIORITY~1 QUICK~2 IGNORE~3
> [LowPriority(@1),Quick(@2),Ignore(@3)]

rule qnames
= <qname:a>
> [$a]
= <qname:a> , <qname:b>
> [$a,$b]
= <qname:a> , <qname:b> , <qname:c>
> [$a,$b,$c]

rule dusing
=
> []
= USING <trefs:t>
> $t

rule delete
= DELETE~1 <dflags:f> FROM~2 <qnames:q> <dusing:u> <where:w> <returning:r>
> Delete(Delete{delete_span:@1,flags:$f,from_span:@2,tables:$q,using:$u,where_:$w,returning:$r})
= DELETE~1 <dflags:f> <qnames:q> FROM~2 <trefs:u> <where:w> <returning:r>
> Delete(Delete{delete_span:@1,flags:$f,from_span:@2,tables:$q,using:$u,where_:$w,returning:$r})
