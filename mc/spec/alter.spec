rule ifex
=
> None
= IF~1 EXISTS~1
> Some(@1)

rule ixsize
= <id:a>
> IndexCol{name:$a,size:None}
= <id:a> ( <int:n> )
> IndexCol{name:$a,size:Some($n)}
= <qid:a>
> IndexCol{name:$a,size:None}

rule ixsizes
= ( <ixsize:a> )
> [$a]
= ( <ixsize:a> , <ixsize:b> )
> [$a,$b]
= ( <ixsize:a> , <ixsize:b> , <ixsize:c> )
> [$a,$b,$c]

rule con
=
> None
= CONSTRAINT~1
> Some((@1,None))
= CONSTRAINT~1 <id:n>
> Some((@1,Some($n)))

rule oname
=
> None
= <id:n>
> Some($n)

rule ontype
= ON~1 UPDATE~1
> Update(@1)
= ON~1 DELETE~1
> Delete(@1)

rule onact
= RESTRICT~1
> Restrict(@1)
= CASCADE~1
> Cascade(@1)
= SET~1 NULL~1
> SetNull(@1)
= NO~1 ACTION~1
> NoAction(@1)
= SET~1 DEFAULT~1
> SetDefault(@1)

rule on
= <ontype:t> <onact:a>
> ForeignKeyOn{type_:$t,action:$a}

rule ons
=
> []
= <on:a>
> [$a]
= <on:a> <on:b>
> [$a,$b]

rule ixtype
= INDEX~1
> Index(@1)
= KEY~1
> Index(@1)
= PRIMARY~1 KEY~1
> Primary(@1)
= UNIQUE~1 INDEX~1
> Unique(@1)
= UNIQUE~1 KEY~1
> Unique(@1)
= FULLTEXT~1 INDEX~1
> FullText(@1)
= FULLTEXT~1 KEY~1
> FullText(@1)
= SPATIAL~1 INDEX~1
> Spatial(@1)
= SPATIAL~1 KEY~1
> Spatial(@1)

rule ixusing
= USING BTREE~1
> IndexTypeBTree(@1)
= USING HASH~1
> IndexTypeHash(@1)
= USING RTREE~1
> IndexTypeRTree(@1)

rule ixo
= <ixusing:a>
> $a
= COMMENT <str:s>
> Comment($s)

rule ixtail
= <ixsizes:c>
> cols:$c,index_options:[]
= <ixusing:u> <ixsizes:c>
> cols:$c,index_options:[$u]
= <ixsizes:c> <ixo:u>
> cols:$c,index_options:[$u]
= <ixsizes:c> <ixo:u> <ixo:v>
> cols:$c,index_options:[$u,$v]
= <ixusing:u> <ixsizes:c> <ixo:v>
> cols:$c,index_options:[$u,$v]

rule addifnex
=
> None
=[ps!1] IF~1 NOT~1 EXISTS~1
> Some(@1)

rule casc
=
> None
= CASCADE~1
> Some(@1)

rule colact
= DROP~1 NOT~1 NULL~1
> DropNotNull{drop_not_null_span:@1}
= SET~1 NOT~1 NULL~1
> SetNotNull{set_not_null_span:@1}
= SET~1 DEFAULT~1 <e:x>
> SetDefault{set_default_span:@1,value:$x}
= DROP~1 DEFAULT~1
> DropDefault{drop_default_span:@1}
= TYPE~1 <coltype:t>
> Type{type_span:@1,type_:$t}

rule idlistp
= ( <idlist:l> )
> $l

rule aspec
= ADD~1 COLUMN <addifnex:x> <id:c> <coltype:t>
> AddColumn{add_span:@1,if_not_exists_span:$x,identifier:$c,data_type:$t}
= ADD~1 <con:k> <ixtype:i> <ifnex:x> <oname:n> <ixtail:t>
> AddIndex{add_span:@1,index_type:$i,if_not_exists:$x,name:$n,constraint:$k,$t}
= ADD~1 <con:k> FOREIGN~f KEY~f <ifnex:x> <oname:n> <ixsizes:c> REFERENCES~r <id:t> <idlistp:q> <ons:o>
> AddForeignKey{add_span:@1,constraint:$k,foreign_key_span:@f,if_not_exists:$x,name:$n,cols:$c,references_span:@r,references_table:$t,references_cols:$q,ons:$o}
= MODIFY~1 <ifex:x> <id:c> <coltype:t>
> Modify{modify_span:@1,if_exists:$x,col:$c,definition:$t}
= MODIFY~1 COLUMN~1 <ifex:x> <id:c> <coltype:t>
> Modify{modify_span:@1,if_exists:$x,col:$c,definition:$t}
= DROP~1 COLUMN~1 <id:c> <casc:k>
> DropColumn{drop_column_span:@1,column:$c,cascade:$k}
= ALTER~1 COLUMN~1 <id:c> <colact:a>
> AlterColumn{alter_column_span:@1,column:$c,alter_column_action:$a}
= OWNER~1 TO~1 <id:o>
> OwnerTo{span:@1,owner:$o}

rule aspecs
= <aspec:a>
> [$a]
= <aspec:a> , <aspec:b>
> [$a,$b]
= <aspec:a> , <aspec:b> , <aspec:c>
> [$a,$b,$c]

rule online
=
> None
= ONLINE~1
> Some(@1)

rule ignore
=
> None
= IGNORE~1
> Some(@1)

rule alter
= ALTER~a <online:n> <ignore:i> TABLE~t <ifex:x> <qname:q> <aspecs:s>
> AlterTable(AlterTable{alter_span:@a,online:$n,ignore:$i,table_span:@t,if_exists:$x,table:$q,alter_specifications:$s})
