rule qname
= <id:a>
> QualifiedName{prefix:[],identifier:$a}
= <id:p> .~d <id:a>
> QualifiedName{prefix:[($p,@d)],identifier:$a}
= <id:p> .~d <id:q> .~f <id:a>
> QualifiedName{prefix:[($p,@d),($q,@f)],identifier:$a}
= <qid:a>
> QualifiedName{prefix:[],identifier:$a}

rule idlist
= <id:a>
> [$a]
= <id:a> , <id:b>
> [$a,$b]
= <id:a> , <qid:b> , <id:c>
> [$a,$b,$c]

rule sflag
= ALL~1
> All(@1)
= DISTINCT~1
> Distinct(@1)
= DISTINCTROW~1
> DistinctRow(@1)
= HIGH_PRIORITY~1
> HighPriority(@1)
= STRAIGHT_JOIN~1
> StraightJoin(@1)
= SQL_SMALL_RESULT~1
> SqlSmallResult(@1)
= SQL_BIG_RESULT~1
> SqlBigResult(@1)
= SQL_BUFFER_RESULT~1
> SqlBufferResult(@1)
= SQL_NO_CACHE~1
> SqlNoCache(@1)
= SQL_CALC_FOUND_ROWS~1
> SqlCalcFoundRows(@1)

rule sflags
=
> []
= <sflag:a>
> [$a]
= <sflag:a> <sflag:b>
> [$a,$b]
= <sflag:a> <sflag:b> <sflag:c>
> [$a,$b,$c]

rule sitem
= <e:a>
> SelectExpr{expr:$a,as_:None}
= <e:a> AS <id:b>
> SelectExpr{expr:$a,as_:Some($b)}
= <e:a> AS <qid:b>
> SelectExpr{expr:$a,as_:Some($b)}
= *~s
> SelectExpr{expr:Identifier([Star(@s)]),as_:None}
= <id:a> . *~s
> SelectExpr{expr:Identifier([Name($a),Star(@s)]),as_:None}
= COUNT~c ( *~s ) AS <id:b>
> SelectExpr{expr:Count{count_span:@c,distinct_span:None,expr:Identifier([Star(@s)])},as_:Some($b)}

rule sitems
= <sitem:a>
> [$a]
= <sitem:a> , <sitem:b>
> [$a,$b]
= <sitem:a> , <sitem:b> , <sitem:c>
> [$a,$b,$c]

rule hint_use
= USE~1
> Use(@1)
= IGNORE~1
> Ignore(@1)
= FORCE~1
> Force(@1)

rule hint_type
= INDEX~1
> Index(@1)
= KEY~1
> Key(@1)

rule hint_for
=
> None
= FOR~1 JOIN~2
> Some((@1,Join(@2)))
= FOR~1 ORDER~2 BY~2
> Some((@1,OrderBy(@2)))
= FOR~1 GROUP~2 BY~2
> Some((@1,GroupBy(@2)))

rule hint
= <hint_use:u> <hint_type:t> <hint_for:f> (~l <idlist:i> )~r
> IndexHint{use_:$u,type_:$t,for_:$f,lparen:@l,index_list:$i,rparen:@r}

rule hints
=
> []
=[m!h] <hint:h>
> [$h]

rule hints2
=[m!h] <hint:a>
> [$a]
=[m!h] <hint:a> <hint:b>
> [$a,$b]

rule qalias
= AS~1 <id:a>
> (Some(@1),Some($a))
= <id:a>
> (None,Some($a))
=
> (None,None)

rule tprim
= <qname:q>
> Table{identifier:$q,as_span:None,as_:None,index_hints:[]}
= <qname:q> AS~1 <id:a>
> Table{identifier:$q,as_span:Some(@1),as_:Some($a),index_hints:[]}
= <qname:q> <id:a>
> Table{identifier:$q,as_span:None,as_:Some($a),index_hints:[]}
=[m!h] <qname:q> <hint:h>
> Table{identifier:$q,as_span:None,as_:None,index_hints:[$h]}
=[m!h] <qname:q> AS~1 <id:a> <hint:h>
> Table{identifier:$q,as_span:Some(@1),as_:Some($a),index_hints:[$h]}
=[m!h] <qname:q> <id:a> <hint:h> <hint:h2>
> Table{identifier:$q,as_span:None,as_:Some($a),index_hints:[$h,$h2]}
= ( <select:s> ) AS~1 <id:a>
> Query{query:$s,as_span:Some(@1),as_:Some($a)}
= ( <select:s> ) <id:a>
> Query{query:$s,as_span:None,as_:Some($a)}
= ( <union:s> ) AS~1 <id:a>
> Query{query:$s,as_span:Some(@1),as_:Some($a)}

rule jtype
= JOIN~1
> Normal(@1)
= INNER~1 JOIN~1
> Inner(@1)
= CROSS~1 JOIN~1
> Cross(@1)
= STRAIGHT_JOIN~1
> Straight(@1)
= LEFT~1 JOIN~1
> Left(@1)
= LEFT~1 OUTER~1 JOIN~1
> Left(@1)
= RIGHT~1 JOIN~1
> Right(@1)
= RIGHT~1 OUTER~1 JOIN~1
> Right(@1)
= NATURAL~1 JOIN~1
> Natural(@1)
= NATURAL~1 INNER~1 JOIN~1
> NaturalInner(@1)
= NATURAL~1 LEFT~1 JOIN~1
> NaturalLeft(@1)
= NATURAL~1 LEFT~1 OUTER~1 JOIN~1
> NaturalLeft(@1)
= NATURAL~1 RIGHT~1 JOIN~1
> NaturalRight(@1)
= NATURAL~1 RIGHT~1 OUTER~1 JOIN~1
> NaturalRight(@1)

rule jspec
=
> None
= ON~1 <e:a>
> Some(On($a,@1))
= USING~1 ( <idlist:l> )
> Some(Using($l,@1))

rule tjoin
= <tprim:a> <jtype:j> <tprim:b> <jspec:s>
> Join{join:$j,left:$a,right:$b,specification:$s}
= <tjoin:l> <jtype:k> <tprim:c> <jspec:t>
> Join{join:$k,left:$l,right:$c,specification:$t}

rule tref
= <tprim:a>
> $a
= <tprim:a> <jtype:j> <tprim:b> <jspec:s>
> Join{join:$j,left:$a,right:$b,specification:$s}
= <tjoin:l> <jtype:k> <tprim:c> <jspec:t>
> Join{join:$k,left:$l,right:$c,specification:$t}

rule trefs
= <tref:a>
> [$a]
= <tref:a> , <tref:b>
> [$a,$b]
= <tref:a> , <tref:b> , <tref:c>
> [$a,$b,$c]

rule where
=
> None
= WHERE~1 <e:a>
> Some(($a,@1))

rule group
=
> None
= GROUP~1 BY~1 <elist:l>
> Some((@1,$l))

rule having
=
> None
= HAVING~1 <e:a>
> Some(($a,@1))

rule order
=
> None
= ORDER~1 BY~1 <order_items:i>
> Some((@1,$i))

rule limit
=
> None
= LIMIT~1 <le:n>
> Some((@1,None,$n))
= LIMIT~1 <le:o> , <le:n>
> Some((@1,Some($o),$n))
= LIMIT~1 <le:n> OFFSET <le:o>
> Some((@1,Some($o),$n))

rule lock_of
=
> None
= OF~1 <idlist:l>
> Some((@1,$l))

rule lock_wait
=
> Default
= NOWAIT~1
> NoWait(@1)
= SKIP~1 LOCKED~1
> SkipLocket(@1)

rule locking
=
> None
= FOR~1 UPDATE~2 <lock_of:o> <lock_wait:w>
> Some(Locking{for_span:@1,strength:Update(@2),of:$o,wait:$w})
= FOR~1 SHARE~2 <lock_of:o> <lock_wait:w>
> Some(Locking{for_span:@1,strength:Share(@2),of:$o,wait:$w})
=[p!2] FOR~1 NO~2 KEY~2 UPDATE~2 <lock_of:o> <lock_wait:w>
> Some(Locking{for_span:@1,strength:NoKeyUpdate(@2),of:$o,wait:$w})
=[p!2] FOR~1 KEY~2 SHARE~2 <lock_of:o> <lock_wait:w>
> Some(Locking{for_span:@1,strength:KeyShare(@2),of:$o,wait:$w})

rule select
= SELECT~s <sflags:f> <sitems:i>
> Select(Select{select_span:@s,flags:$f,select_exprs:$i,from_span:None,table_references:None,where_:None,group_by:None,having:None,window_span:None,order_by:None,limit:None,locking:None})
=0 SELECT~s <sflags:f> <sitems:i> FROM~r <trefs:t> <where:w> <group:g> <having:h> <order:o> <limit:l> <locking:k>
> Select(Select{select_span:@s,flags:$f,select_exprs:$i,from_span:Some(@r),table_references:Some($t),where_:$w,group_by:$g,having:$h,window_span:None,order_by:$o,limit:$l,locking:$k})

# Select that can be an unparenthesised member of a union: no ORDER BY, LIMIT or locking of its own
rule uselect
= SELECT~s <sitems:i>
> Select(Select{select_span:@s,flags:[],select_exprs:$i,from_span:None,table_references:None,where_:None,group_by:None,having:None,window_span:None,order_by:None,limit:None,locking:None})
= SELECT~s <sflags:f> <sitems:i> FROM~r <trefs:t> <where:w> <group:g> <having:h>
> Select(Select{select_span:@s,flags:$f,select_exprs:$i,from_span:Some(@r),table_references:Some($t),where_:$w,group_by:$g,having:$h,window_span:None,order_by:None,limit:None,locking:None})

rule umember
= <uselect:s>
> $s
= ( <select:s> )
> $s
= ( <union:s> )
> $s

rule utype
=
> Default
= ALL~1
> All(@1)
= DISTINCT~1
> Distinct(@1)

rule uwith
= UNION~u <utype:t> <umember:m>
> UnionWith{union_span:@u,union_type:$t,union_statement:$m}

rule union
= <umember:a> <uwith:b> <order:o> <limit:l>
> Union(Union{left:$a,with:[$b],order_by:$o,limit:$l})
= <umember:a> <uwith:b> <uwith:c> <order:o> <limit:l>
> Union(Union{left:$a,with:[$b,$c],order_by:$o,limit:$l})

# union that can be a subquery of an expression: its first member is not parenthesised
rule eunion
= <uselect:a> <uwith:b> <order:o> <limit:l>
> Union(Union{left:$a,with:[$b],order_by:$o,limit:$l})
= <uselect:a> <uwith:b> <uwith:c> <order:o> <limit:l>
> Union(Union{left:$a,with:[$b,$c],order_by:$o,limit:$l})

rule with_body
= <select:s>
> $s
= <union:s>
> $s
= <insert:s>
> $s
= <update:s>
> $s
= <delete:s>
> $s

rule with_block
= <id:a> AS~1 (~l <with_body:s> )~r
> WithBlock{identifier:$a,as_span:@1,lparen_span:@l,statement:$s,rparen_span:@r}

rule with_blocks
= <with_block:a>
> [$a]
= <with_block:a> , <with_block:b>
> [$a,$b]

rule with
=[p!w] WITH~w <with_blocks:b> <with_body:s>
> WithQuery(WithQuery{with_span:@w,with_blocks:$b,statement:$s})
