# small bodies for exploring how blocks nest (C13)
rule bleaf
= SET~s <id:a> = <int:v>
> Set(Set{set_span:@s,values:[($a,Integer($v))]})
= COMMIT~c
> Commit(@c)
= TRUNCATE~1 TABLE~2 <qname:q>
> TruncateTable(TruncateTable{truncate_span:@1,table_span:Some(@2),table_name:$q})
= START~c TRANSACTION~c
> StartTransaction(@c)

rule bnode
=0 <bleaf:s>
> $s
= BEGIN~1 <blist:s> END~1
> Block($s,@1)
= BEGIN~1 END~1
> Block([],@1)
= IF~i <blx:x> THEN~t <blist:s> <belse:e> END~n IF~n
> If(If{if_span:@i,conditions:[IfCondition{elseif_span:None,search_condition:$x,then_span:@t,then:$s}],else_:$e,endif_span:@n})
= IF~i <blx:x> THEN~t <blist:s> ELSEIF~j <blx:y> THEN~u <blist:r> <belse:e> END~n IF~n
> If(If{if_span:@i,conditions:[IfCondition{elseif_span:None,search_condition:$x,then_span:@t,then:$s},IfCondition{elseif_span:Some(@j),search_condition:$y,then_span:@u,then:$r}],else_:$e,endif_span:@n})
= CASE~c <bcv:v> WHEN~w <blx:x> THEN~t <blist:s> <belse:e> END~n
> Case(CaseStatement{case_span:@c,value:$v,whens:[WhenStatement{when_span:@w,when:$x,then_span:@t,then:$s}],else_:$e,end_span:@n})
= CASE~c <bcv:v> WHEN~w <blx:x> THEN~t <blist:s> WHEN~w2 <blx:y> THEN~t2 <blist:r> <belse:e> END~n
> Case(CaseStatement{case_span:@c,value:$v,whens:[WhenStatement{when_span:@w,when:$x,then_span:@t,then:$s},WhenStatement{when_span:@w2,when:$y,then_span:@t2,then:$r}],else_:$e,end_span:@n})

rule blx
= <id:a>
> Identifier([Name($a)])

rule bcv
=
> None
= <blx:x>
> Some($x)

rule belse
=
> None
= ELSE~1 <blist:s>
> Some((@1,$s))

rule blist
= <bnode:a> ;
> [$a]
= <bnode:a> ; <bnode:b> ;
> [$a,$b]
= <bnode:a> ; <bnode:b> ; <bnode:c> ;
> [$a,$b,$c]

# the places a body can be in
rule body
= CREATE~c TRIGGER~t <id:n> BEFORE~w INSERT~v ON~o <id:b> FOR~f EACH~f ROW~f <bnode:s>
> CreateTrigger(CreateTrigger{create_span:@c,create_options:[],trigger_span:@t,if_not_exists:None,name:$n,trigger_time:Before(@w),trigger_event:Insert(@v),on_span:@o,table:$b,for_each_row_span:@f,statement:$s})
=0[m] CREATE~c FUNCTION~t <id:n> ( ) RETURNS~r INT~y <bnode:s>
> CreateFunction(CreateFunction{create_span:@c,create_options:[],function_span:@t,if_not_exists:None,name:$n,params:[],returns_span:@r,return_type:DataType{identifier:@y,type_:Int(None),properties:[]},characteristics:[],return_:Some($s)})
=0 IF~i <blx:x> THEN~t <blist:s> <belse:e> END~n IF~n
> If(If{if_span:@i,conditions:[IfCondition{elseif_span:None,search_condition:$x,then_span:@t,then:$s}],else_:$e,endif_span:@n})
=0 CASE~c <bcv:v> WHEN~w <blx:x> THEN~t <blist:s> <belse:e> END~n
> Case(CaseStatement{case_span:@c,value:$v,whens:[WhenStatement{when_span:@w,when:$x,then_span:@t,then:$s}],else_:$e,end_span:@n})
=0 DO~1 $$ BEGIN <blist:s> END $$~1
> Do($s,@1)
