rule temp
=
> None
= TEMPORARY~1
> Some(@1)

rule pgcasc
=
> None
=[p!1] CASCADE~1
> Some(@1)

rule drop
= DROP~d <temp:m> TABLE~t <ifex:x> <qnames:q> <pgcasc:c>
> DropTable(DropTable{drop_span:@d,temporary:$m,table_span:@t,if_exists:$x,tables:$q,cascade:$c})
= DROP~d <temp:m> VIEW~t <ifex:x> <qnames:q>
> DropView(DropView{drop_span:@d,temporary:$m,view_span:@t,if_exists:$x,views:$q})
= DROP~d DATABASE~t <ifex:x> <id:q>
> DropDatabase(DropDatabase{drop_span:@d,database_span:@t,if_exists:$x,database:$q})
= DROP~d SCHEMA~t <ifex:x> <id:q>
> DropDatabase(DropDatabase{drop_span:@d,database_span:@t,if_exists:$x,database:$q})
= DROP~d EVENT~t <ifex:x> <qname:q>
> DropEvent(DropEvent{drop_span:@d,event_span:@t,if_exists:$x,event:$q})
= DROP~d FUNCTION~t <ifex:x> <qname:q>
> DropFunction(DropFunction{drop_span:@d,function_span:@t,if_exists:$x,function:$q})
= DROP~d PROCEDURE~t <ifex:x> <qname:q>
> DropProcedure(DropProcedure{drop_span:@d,procedure_span:@t,if_exists:$x,procedure:$q})
= DROP~d SERVER~t <ifex:x> <id:q>
> DropServer(DropServer{drop_span:@d,server_span:@t,if_exists:$x,server:$q})
= DROP~d TRIGGER~t <ifex:x> <qname:q>
> DropTrigger(DropTrigger{drop_span:@d,trigger_span:@t,if_exists:$x,identifier:$q})
=[ms!n] DROP~d INDEX~t <ifex:x> <id:n> ON~o <qname:q>
> DropIndex(DropIndex{drop_span:@d,index_span:@t,if_exists:$x,index_name:$n,on:Some((@o,$q))})
=[ps!n] DROP~d INDEX~t <ifex:x> <id:n>
> DropIndex(DropIndex{drop_span:@d,index_span:@t,if_exists:$x,index_name:$n,on:None})

rule tablekw
=
> None
= TABLE~1
> Some(@1)

rule truncate
= TRUNCATE~1 <tablekw:t> <qname:q>
> TruncateTable(TruncateTable{truncate_span:@1,table_span:$t,table_name:$q})

rule t2t
= <qname:a> TO~t <qname:b>
> TableToTable{table:$a,to_span:@t,new_table:$b}

rule t2ts
= <t2t:a>
> [$a]
= <t2t:a> , <t2t:b>
> [$a,$b]
= <t2t:a> , <t2t:b> , <t2t:c>
> [$a,$b,$c]

rule rename
= RENAME~1 <tablekw:t> <t2ts:q>
> RenameTable(RenameTable{rename_span:@1,table_span:$t,table_to_tables:$q})

rule set1
= <id:a> = <e:v>
> ($a,$v)

rule sets1
= <set1:a>
> [$a]
= <set1:a> , <set1:b>
> [$a,$b]
= <set1:a> , <set1:b> , <set1:c>
> [$a,$b,$c]

rule set
= SET~s <sets1:v>
> Set(Set{set_span:@s,values:$v})

rule sigval
=
> None
= VALUE~1
> Some(@1)

rule signame
= MESSAGE_TEXT~1
> MessageText(@1)
= CLASS_ORIGIN~1
> ClassOrigin(@1)
= SUBCLASS_ORIGIN~1
> SubclassOrigin(@1)
= MYSQL_ERRNO~1
> MysqlErrno(@1)
= CONSTRAINT_CATALOG~1
> ConstraintCatalog(@1)
= CONSTRAINT_SCHEMA~1
> ConstraintSchema(@1)
= CONSTRAINT_NAME~1
> ConstraintName(@1)
= CATALOG_NAME~1
> CatalogName(@1)
= SCHEMA_NAME~1
> SchemaName(@1)
= TABLE_NAME~1
> TableName(@1)
= COLUMN_NAME~1
> ColumnName(@1)
= CURSOR_NAME~1
> CursorName(@1)

rule sigset
= <signame:n> =~q <e:v>
> ($n,@q,$v)

rule sigsets
=
> set_span:None,sets:[]
= SET~s <sigset:a>
> set_span:Some(@s),sets:[$a]
= SET~s <sigset:a> , <sigset:b>
> set_span:Some(@s),sets:[$a,$b]

rule signal
= SIGNAL~s SQLSTATE~q <sigval:v> <str:x> <sigsets:t>
> Signal(Signal{signal_span:@s,sqlstate_span:@q,value_span:$v,sql_state:String($x),$t})

rule control
= COMMIT~1
> Commit(@1)
= START~1 TRANSACTION~1
> StartTransaction(@1)
= BEGIN~1
> Begin(@1)
= END~1
> End(@1)

rule return
= RETURN~1 <e:x>
> Return(Return{return_span:@1,expr:$x})

rule bsel
= SELECT~s <sitems:i>
> Select(Select{select_span:@s,flags:[],select_exprs:$i,from_span:None,table_references:None,where_:None,group_by:None,having:None,window_span:None,order_by:None,limit:None,locking:None})

rule bstmt
= <set:s>
> $s
= <bsel:s>
> $s
= <insert:s>
> $s
= <if:s>
> $s
= <case:s>
> $s
= <block:s>
> $s
= <update:s>
> $s
= <delete:s>
> $s
= <return:s>
> $s
= <signal:s>
> $s
= <truncate:s>
> $s
= <create_table:s>
> $s
= <alter:s>
> $s
= COMMIT~c
> Commit(@c)
= START~c TRANSACTION~c
> StartTransaction(@c)

rule stmts
= <bstmt:a> ;
> [$a]
= <bstmt:a> ; <bstmt:b> ;
> [$a,$b]
= <bstmt:a> ; <bstmt:b> ; <bstmt:c> ;
> [$a,$b,$c]

rule bstmts
= <stmts:s>
> $s
=
> []

rule block
= BEGIN~1 <bstmts:s> END~1
> Block($s,@1)

rule if1
= <e:x> THEN~t <stmts:s>
> search_condition:$x,then_span:@t,then:$s

rule ifelse
=
> None
= ELSE~1 <stmts:s>
> Some((@1,$s))

rule if
= IF~i <if1:a> <ifelse:e> END~n IF~n
> If(If{if_span:@i,conditions:[IfCondition{elseif_span:None,$a}],else_:$e,endif_span:@n})
= IF~i <if1:a> ELSEIF~j <if1:b> <ifelse:e> END~n IF~n
> If(If{if_span:@i,conditions:[IfCondition{elseif_span:None,$a},IfCondition{elseif_span:Some(@j),$b}],else_:$e,endif_span:@n})
= IF~i <if1:a> ELSEIF~j <if1:b> ELSEIF~k <if1:c> <ifelse:e> END~n IF~n
> If(If{if_span:@i,conditions:[IfCondition{elseif_span:None,$a},IfCondition{elseif_span:Some(@j),$b},IfCondition{elseif_span:Some(@k),$c}],else_:$e,endif_span:@n})

rule swhen
= WHEN~w <e:x> THEN~t <stmts:s>
> WhenStatement{when_span:@w,when:$x,then_span:@t,then:$s}

rule swhens
= <swhen:a>
> [$a]
= <swhen:a> <swhen:b>
> [$a,$b]
= <swhen:a> <swhen:b> <swhen:c>
> [$a,$b,$c]

rule scase
=
> None
= <e:a>
> Some($a)

rule case
= CASE~c <scase:v> <swhens:w> <ifelse:e> END~n
> Case(CaseStatement{case_span:@c,value:$v,whens:$w,else_:$e,end_span:@n})

rule do
= DO~1 $$ BEGIN <bstmts:s> END $$~1
> Do($s,@1)

rule copy_cols
= ( <idlist:c> )
> $c
= ( )
> []

rule copy
= COPY~c <id:t> <copy_cols:l> FROM~f STDIN~s
> Copy(Copy{copy_span:@c,table:$t,columns:$l,from_span:@f,stdin_span:@s})

# every statement
rule stmt
= <select:s>
> $s
=0 <union:s>
> $s
=0 <insert:s>
> $s
=0 <update:s>
> $s
=0 <delete:s>
> $s
=0 <with:s>
> $s
=0 <create_table:s>
> $s
=0 <create_view:s>
> $s
=0 <create_index:s>
> $s
=0 <create_trigger:s>
> $s
=0 <create_function:s>
> $s
=0 <create_type:s>
> $s
=0 <alter:s>
> $s
=0 <drop:s>
> $s
=0 <truncate:s>
> $s
=0 <rename:s>
> $s
=0 <set:s>
> $s
=0 <signal:s>
> $s
=0 <control:s>
> $s
=0 <return:s>
> $s
=0 <if:s>
> $s
=0 <case:s>
> $s
=0 <do:s>
> $s
=0 <copy:s>
> $s
=0 <xstmt:s>
> $s
