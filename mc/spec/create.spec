rule ifnex
=
> None
= IF~1 NOT~1 EXISTS~1
> Some(@1)

rule copt_t
=
> []
= OR~1 REPLACE~1
> [OrReplace(@1)]
= TEMPORARY~1
> [Temporary(@1)]
= OR~1 REPLACE~1 TEMPORARY~2
> [OrReplace(@1),Temporary(@2)]

rule algo
= UNDEFINED~1
> Undefined(@1)
= MERGE~1
> Merge(@1)
= TEMPTABLE~1
> TempTable(@1)

rule copt1
= OR~1 REPLACE~1
> OrReplace(@1)
= ALGORITHM~1 = <algo:a>
> Algorithm(@1,$a)
= DEFINER~1 = <id:u> @ <id:h>
> Definer{definer_span:@1,user:$u,host:$h}
= DEFINER~1 = <qid:u> @ <qid:h>
> Definer{definer_span:@1,user:$u,host:$h}
= SQL~1 SECURITY~1 DEFINER~2
> SqlSecurityDefiner(@1,@2)
= SQL~1 SECURITY~1 USER~2
> SqlSecurityUser(@1,@2)
= TEMPORARY~1
> Temporary(@1)

rule copts
=
> []
= <copt1:a>
> [$a]
= <copt1:a> <copt1:b>
> [$a,$b]
= <copt1:a> <copt1:b> <copt1:c>
> [$a,$b,$c]

rule fkact
=
> x
= ON DELETE CASCADE
> x
= ON DELETE RESTRICT
> x
= ON DELETE SET NULL
> x

rule cdef
= <coldef:c>
> $c
= CONSTRAINT~1 <id:n> FOREIGN KEY ( <idlist> ) REFERENCES <id> ( <idlist> ) <fkact>
> ConstraintDefinition{span:@1,identifier:$n}

rule cdefs
= <cdef:a>
> [$a]
= <cdef:a> , <cdef:b>
> [$a,$b]
= <cdef:a> , <cdef:b> , <cdef:c>
> [$a,$b,$c]
=
> []

rule eqs
= =
> x
=
> x

rule topt
= ENGINE~1 <eqs> <id:v>
> Engine{identifier:@1,value:$v}
= DEFAULT~1 CHARSET <eqs> <id:v>
> DefaultCharSet{identifier:@1,value:$v}
= DEFAULT~1 COLLATE <eqs> <id:v>
> DefaultCollate{identifier:@1,value:$v}
= CHARSET~1 <eqs> <id:v>
> CharSet{identifier:@1,value:$v}
= COLLATE~1 <eqs> <id:v>
> Collate{identifier:@1,value:$v}
= ROW_FORMAT~1 <eqs> <id:v>
> RowFormat{identifier:@1,value:$v}
= COMMENT~1 <eqs> <str:v>
> Comment{identifier:@1,value:$v}
= STRICT~1
> Strict{identifier:@1}

rule topts
=
> []
= <topt:a>
> [$a]
= <topt:a> <topt:b>
> [$a,$b]
= <topt:a> <topt:b> <topt:c>
> [$a,$b,$c]

rule create_table
= CREATE~c <copt_t:o> TABLE~t <ifnex:n> <qname:q> ( <cdefs:d> ) <topts:p>
> CreateTable(CreateTable{create_span:@c,create_options:$o,table_span:@t,identifier:$q,if_not_exists:$n,create_definitions:$d,options:$p})

rule create_view
= CREATE~c <copts:o> VIEW~v <ifnex:n> <qname:q> AS~a <select:s>
> CreateView(CreateView{create_span:@c,create_options:$o,view_span:@v,if_not_exists:$n,name:$q,as_span:@a,select:$s})
= CREATE~c <copts:o> VIEW~v <ifnex:n> <qname:q> AS~a <union:s>
> CreateView(CreateView{create_span:@c,create_options:$o,view_span:@v,if_not_exists:$n,name:$q,as_span:@a,select:$s})
= CREATE~c <copts:o> VIEW~v <ifnex:n> <qname:q> AS~a ( <select:s> )
> CreateView(CreateView{create_span:@c,create_options:$o,view_span:@v,if_not_exists:$n,name:$q,as_span:@a,select:$s})

rule copt_i
=
> []
= UNIQUE~1
> [Unique(@1)]
= OR~1 REPLACE~1
> [OrReplace(@1)]
= OR~1 REPLACE~1 UNIQUE~2
> [OrReplace(@1),Unique(@2)]

rule ixopt
=
> []
= USING~1 GIST~1
> [UsingGist(@1)]

rule ixcol
= <id:a>
> $a
= <qid:a>
> $a
=[p!o] <id:a> TEXT_PATTERN_OPS~o
> $a
=[p!o] <id:a> VARCHAR_PATTERN_OPS~o
> $a
=[p!o] <id:a> BPCHAR_PATTERN_OPS~o
> $a
=[p!o] <id:a> INT8_OPS~o
> $a
=[p!o] <id:a> INT4_OPS~o
> $a
=[p!o] <id:a> INT2_OPS~o
> $a

rule ixcols
= <ixcol:a>
> [$a]
= <ixcol:a> , <ixcol:b>
> [$a,$b]
= <ixcol:a> , <ixcol:b> , <ixcol:c>
> [$a,$b,$c]

rule ixwhere
=
> None
=[ps!w] <ixw:w>
> Some($w)

rule ixw
= WHERE~1 <e:x>
> (@1,$x)

rule create_index
= CREATE~c <copt_i:o> INDEX~i <ifnex:x> <id:n> ON~s <qname:t> <ixopt:p> (~l <ixcols:k> )~r <ixwhere:w>
> CreateIndex(CreateIndex{create_span:@c,create_options:$o,index_span:@i,index_name:$n,if_not_exists:$x,on_span:@s,table_name:$t,index_options:$p,l_paren_span:@l,column_names:$k,r_paren_span:@r,where_:$w})

rule create_type
=[p!t] CREATE~c TYPE~t <id:n> AS~e ENUM~e ( <strs:v> )
> CreateTypeEnum(CreateTypeEnum{create_span:@c,create_options:[],type_span:@t,name:$n,as_enum_span:@e,values:$v})

rule ttime
= BEFORE~1
> Before(@1)
= AFTER~1
> After(@1)

rule tevent
= UPDATE~1
> Update(@1)
= INSERT~1
> Insert(@1)
= DELETE~1
> Delete(@1)

rule create_trigger
= CREATE~c <copts:o> TRIGGER~t <ifnex:x> <id:n> <ttime:m> <tevent:e> ON~s <id:b> FOR~f EACH~f ROW~f <tbody:y>
> CreateTrigger(CreateTrigger{create_span:@c,create_options:$o,trigger_span:@t,if_not_exists:$x,name:$n,trigger_time:$m,trigger_event:$e,on_span:@s,table:$b,for_each_row_span:@f,statement:$y})

rule tbody
= <set:s>
> $s
= <block:s>
> $s
= <insert:s>
> $s
= <update:s>
> $s
= <delete:s>
> $s
= <if:s>
> $s
= <case:s>
> $s
= <signal:s>
> $s

rule fdir
=
> None
= IN~1
> Some(In(@1))
= OUT~1
> Some(Out(@1))
= INOUT~1
> Some(InOut(@1))
= IN~1 OUT~1
> Some(InOut(@1))

rule fparam
= <fdir:d> <id:n> <type:t>
> ($d,$n,$t)

rule fparams
= <fparam:a>
> [$a]
= <fparam:a> , <fparam:b>
> [$a,$b]
= <fparam:a> , <fparam:b> , <fparam:c>
> [$a,$b,$c]
=
> []

rule fchar
= LANGUAGE~1 SQL~1
> LanguageSql(@1)
= LANGUAGE~1 PLPGSQL~1
> LanguagePlpgsql(@1)
= NOT~1 DETERMINISTIC~1
> NotDeterministic(@1)
= DETERMINISTIC~1
> Deterministic(@1)
= CONTAINS~1 SQL~1
> ContainsSql(@1)
= NO~1 SQL~1
> NoSql(@1)
= READS~1 SQL~1 DATA~1
> ReadsSqlData(@1)
= MODIFIES~1 SQL~1 DATA~1
> ModifiesSqlData(@1)
= COMMENT <str:s>
> Comment($s)
= SQL~1 SECURITY~1 DEFINER~1
> SqlSecurityDefiner(@1)
= SQL~1 SECURITY~1 USER~1
> SqlSecurityUser(@1)

rule fchars
=
> []
= <fchar:a>
> [$a]
= <fchar:a> <fchar:b>
> [$a,$b]
= <fchar:a> <fchar:b> <fchar:c>
> [$a,$b,$c]

rule fbody
= <return:s>
> $s
= <block:s>
> $s
= <if:s>
> $s
= <set:s>
> $s

rule create_function
=[m] CREATE~c <copts:o> FUNCTION~f <ifnex:x> <id:n> ( <fparams:p> ) RETURNS~r <type:t> <fchars:h> <fbody:b>
> CreateFunction(CreateFunction{create_span:@c,create_options:$o,function_span:@f,if_not_exists:$x,name:$n,params:$p,returns_span:@r,return_type:$t,characteristics:$h,return_:Some($b)})
=[p] CREATE~c <copts:o> FUNCTION~f <ifnex:x> <id:n> ( <fparams:p> ) RETURNS~r <type:t> AS $$ BEGIN RETURN <id> ; END $$ <fchars:h>
> CreateFunction(CreateFunction{create_span:@c,create_options:$o,function_span:@f,if_not_exists:$x,name:$n,params:$p,returns_span:@r,return_type:$t,characteristics:$h,return_:None})
=[ps] CREATE~c <copts:o> FUNCTION~f <ifnex:x> <id:n> ( <fparams:p> ) RETURNS~r <type:t> <fchars:h>
> CreateFunction(CreateFunction{create_span:@c,create_options:$o,function_span:@f,if_not_exists:$x,name:$n,params:$p,returns_span:@r,return_type:$t,characteristics:$h,return_:None})
