# Small expressions, used inside statements.
rule ident
= <id:a>
> Identifier([Name($a)])

rule e
= <ident:a>
> $a
= <int:a>
> Integer($a)
= <str:a>
> String($a)
= <arg:a>
> Arg($a)
= <ident:a> +~p <int:b> *~m <ident:c>
> Binary{op:Add,op_span:@p,lhs:$a,rhs:Binary{op:Mult,op_span:@m,lhs:Integer($b),rhs:$c}}
= <ident:a> =~q <ident:b> AND~n <ident:c> <~l <int:d>
> Binary{op:And,op_span:@n,lhs:Binary{op:Eq,op_span:@q,lhs:$a,rhs:$b},rhs:Binary{op:Lt,op_span:@l,lhs:$c,rhs:Integer($d)}}
= <id:f> ( <e:x> , <e:y> )
> Function(Other(%f),[$x,$y],@f)
= ( <select:s> )
> Subquery($s)
= ( <eunion:s> )
> Subquery($s)
= NULL~n
> Null(@n)
= ( <e:x> )
> $x
= <id:a> . <id:b>
> Identifier([Name($a),Name($b)])
= CASE~c WHEN~w <e:x> THEN~t <e:y> END~e
> Case{case_span:@c,value:None,whens:[When{when_span:@w,when:$x,then_span:@t,then:$y}],else_:None,end_span:@e}

# Limit expressions: only simple forms
rule le
= <int:a>
> Integer($a)
= <arg:a>
> Arg($a)
= <ident:a>
> $a

rule elist
= <e:a>
> [$a]
= <e:a> , <e:b>
> [$a,$b]
= <e:a> , <e:b> , <e:c>
> [$a,$b,$c]

# ---------------------------------------------------------------------- full primary expressions
rule xa
= <ident:a>
> $a
= <x:a>
> $a

rule xlist
= <xa:a>
> [$a]
= <xa:a> , <xa:b>
> [$a,$b]
= <xa:a> , <xa:b> , <xa:c>
> [$a,$b,$c]

rule xlist0
=
> []
= <xlist:a>
> $a

rule unit
= DAY~1
> (Day,@1)
= MICROSECOND~1
> (Microsecond,@1)
= SECOND~1
> (Second,@1)
= MINUTE~1
> (Minute,@1)
= HOUR~1
> (Hour,@1)
= WEEK~1
> (Week,@1)
= MONTH~1
> (Month,@1)
= QUARTER~1
> (Quarter,@1)
= YEAR~1
> (Year,@1)
= SECOND_MICROSECOND~1
> (SecondMicrosecond,@1)
= MINUTE_MICROSECOND~1
> (MinuteMicrosecond,@1)
= MINUTE_SECOND~1
> (MinuteSecond,@1)
= HOUR_MICROSECOND~1
> (HourMicrosecond,@1)
= HOUR_SECOND~1
> (HourSecond,@1)
= HOUR_MINUTE~1
> (HourMinute,@1)
= DAY_MICROSECOND~1
> (DayMicrosecond,@1)
= DAY_SECOND~1
> (DaySecond,@1)
= DAY_MINUTE~1
> (DayMinute,@1)
= DAY_HOUR~1
> (DayHour,@1)
= YEAR_MONTH~1
> (YearMonth,@1)

rule distinct
=
> None
= DISTINCT~1
> Some(@1)

rule order_item
= <e:a>
> ($a,None)
= <e:a> ASC~1
> ($a,Asc(@1))
= <e:a> DESC~1
> ($a,Desc(@1))

rule order_items
= <order_item:a>
> [$a]
= <order_item:a> , <order_item:b>
> [$a,$b]
= <order_item:a> , <order_item:b> , <order_item:c>
> [$a,$b,$c]

rule is_test
= IS~1 NULL~1
> (Null,@1)
= IS~1 NOT~1 NULL~1
> (NotNull,@1)

rule else
=
> None
= ELSE~1 <xa:a>
> Some((@1,$a))

rule when
= WHEN~w <xa:a> THEN~t <xa:b>
> When{when_span:@w,when:$a,then_span:@t,then:$b}

rule whens
= <when:a>
> [$a]
= <when:a> <when:b>
> [$a,$b]
= <when:a> <when:b> <when:c>
> [$a,$b,$c]

rule case_value
=
> None
= <xa:a>
> Some($a)

rule subquery
= <select:s>
> $s
= <eunion:s>
> $s

# operands of prefix operators: anything that is not itself an operator
rule p
= <int:a>
> Integer($a)
= <float:a>
> Float($a)
= <str:a>
> String($a)
= <arg:a>
> Arg($a)
= TRUE~1
> Bool(true,@1)
= FALSE~1
> Bool(false,@1)
= NULL~1
> Null(@1)
= <qid:a>
> Identifier([Name($a)])
= <id:a> . <id:b>
> Identifier([Name($a),Name($b)])
= <id:a> . <qid:b> . <id:c>
> Identifier([Name($a),Name($b),Name($c)])
= <id:a> . *~s
> Identifier([Name($a),Star(@s)])
= <id:a> . <id:b> . *~s
> Identifier([Name($a),Name($b),Star(@s)])
= ( <xa:a> )
> $a
= ( ( <xa:a> ) )
> $a
= ( <subquery:s> )
> Subquery($s)
= EXISTS ( <subquery:s> )
> Exists($s)
= <id:f> ( <xlist0:l> )
> Function(Other(%f),$l,@f)
= CONCAT~f ( <xlist0:l> )
> Function(Concat,$l,@f)
= LEFT~f ( <xlist:l> )
> Function(Left,$l,@f)
= RIGHT~f ( <xlist:l> )
> Function(Right,$l,@f)
= IF~f ( <xlist:l> )
> Function(If,$l,@f)
= REPLACE~f ( <xlist:l> )
> Function(Replace,$l,@f)
= VALUES~f ( <ident:l> )
> Function(Value,[$l],@f)
= MAX~f ( <select:s> )
> Function(Max,[Subquery($s)],@f)
= LAG~f ( <xlist:l> ) OVER~o ( ORDER~b BY~b <order_items:i> )
> WindowFunction{function:Lag,args:$l,function_span:@f,over_span:@o,window_spec:WindowSpec{order_by:(@b,$i)}}
= LEAD~f ( ) OVER~o ( ORDER~b BY~b <order_items:i> )
> WindowFunction{function:Lead,args:[],function_span:@f,over_span:@o,window_spec:WindowSpec{order_by:(@b,$i)}}
= <id:f> ( <xlist:l> ) OVER~o ( ORDER~b BY~b <order_items:i> )
> WindowFunction{function:Other(%f),args:$l,function_span:@f,over_span:@o,window_spec:WindowSpec{order_by:(@b,$i)}}
= COUNT~c ( <distinct:d> <xa:a> )
> Count{count_span:@c,distinct_span:$d,expr:$a}
= COUNT~c ( *~s )
> Count{count_span:@c,distinct_span:None,expr:Identifier([Star(@s)])}
= GROUP_CONCAT~c ( <distinct:d> <xa:a> )
> GroupConcat{group_concat_span:@c,distinct_span:$d,expr:$a}
= CAST~c ( <xa:a> AS~s <type:t> )
> Cast{cast_span:@c,expr:$a,as_span:@s,type_:$t}
= EXTRACT~c ( <unit:u> FROM~f <xa:a> )
> Extract{extract_span:@c,time_unit:$u,from_span:@f,date:$a}
= INTERVAL~i <int:n> <unit:u>
> Interval{interval_span:@i,time_interval:([%n],@n),time_unit:$u}
= INTERVAL~i '1'~n <unit:u>
> Interval{interval_span:@i,time_interval:([1],@n),time_unit:$u}
= INTERVAL~i '1:2'~n <unit:u>
> Interval{interval_span:@i,time_interval:([1,2],@n),time_unit:$u}
= INTERVAL~i "3-4"~n <unit:u>
> Interval{interval_span:@i,time_interval:([3,4],@n),time_unit:$u}
= INTERVAL~i '5.6!7,8'~n <unit:u>
> Interval{interval_span:@i,time_interval:([5,6,7,8],@n),time_unit:$u}
= TIMESTAMPADD~c ( <unit:u> , <xa:a> , <xa:b> )
> TimestampAdd{timestamp_add_span:@c,unit:$u,interval:$a,datetime:$b}
= TIMESTAMPDIFF~c ( <unit:u> , <xa:a> , <xa:b> )
> TimestampDiff{timestamp_diff_span:@c,unit:$u,e1:$a,e2:$b}
= CASE~c <case_value:v> <whens:w> <else:l> END~e
> Case{case_span:@c,value:$v,whens:$w,else_:$l,end_span:@e}
= @@GLOBAL~g .~d <id:v>
> Variable{global:Some(@g),session:None,dot:Some(@d),variable:Other(%v),variable_span:@v}
= @@SESSION~g .~d <id:v>
> Variable{global:None,session:Some(@g),dot:Some(@d),variable:Other(%v),variable_span:@v}
= @@global~g .~d TIME_ZONE~v
> Variable{global:Some(@g),session:None,dot:Some(@d),variable:TimeZone,variable_span:@v}
= @@session~g .~d time_zone~v
> Variable{global:None,session:Some(@g),dot:Some(@d),variable:TimeZone,variable_span:@v}
= CURRENT_TIMESTAMP~c
> Function(CurrentTimestamp,[],@c)
= CURRENT_TIMESTAMP~c ( )
> Function(CurrentTimestamp,[],@c)
= CURRENT_TIMESTAMP~c ( <int:n> )
> Function(CurrentTimestamp,[Integer($n)],@c)
= LOCALTIME~c
> Function(Now,[],@c)
= LOCALTIMESTAMP~c
> Function(Now,[],@c)
= UTC_TIMESTAMP~c
> Function(UtcTimeStamp,[],@c)
= UTC_DATE~c
> Function(UtcDate,[],@c)
= UTC_TIME~c
> Function(UtcTime,[],@c)
= CURRENT_DATE~c
> Function(CurDate,[],@c)
= CURRENT_TIME~c
> Function(CurTime,[],@c)
= DATE_ADD~c ( <xa:a> , INTERVAL~i <int:n> <unit:u> )
> Function(AddDate,[$a,Interval{interval_span:@i,time_interval:([%n],@n),time_unit:$u}],@c)

rule pa
= <ident:a>
> $a
= <p:a>
> $a

rule x
= <p:a>
> $a
= -~m <pa:a>
> Unary{op:Minus,op_span:@m,operand:$a}
= !~m <ident:a>
> Unary{op:LogicalNot,op_span:@m,operand:$a}
= NOT~m <ident:a>
> Unary{op:Not,op_span:@m,operand:$a}
= BINARY~m <ident:a>
> Unary{op:Binary,op_span:@m,operand:$a}
= <ident:a> IS~1 NULL~1
> Is($a,Null,@1)
= <ident:a> IS~1 NOT~1 NULL~1
> Is($a,NotNull,@1)
= <ident:a> IS~1 TRUE~1
> Is($a,True,@1)
= <ident:a> IS~1 NOT~1 TRUE~1
> Is($a,NotTrue,@1)
= <ident:a> IS~1 FALSE~1
> Is($a,False,@1)
= <ident:a> IS~1 NOT~1 FALSE~1
> Is($a,NotFalse,@1)
= <ident:a> IS~1 UNKNOWN~1
> Is($a,Unknown,@1)
= <ident:a> IS~1 NOT~1 UNKNOWN~1
> Is($a,NotUnknown,@1)
= <ident:a> IN~1 ( <xlist:l> )
> In{lhs:$a,rhs:$l,in_span:@1,not_in:false}
= <ident:a> NOT~1 IN~1 ( <xlist:l> )
> In{lhs:$a,rhs:$l,in_span:@1,not_in:true}
= <ident:a> IN~1 ( <subquery:l> )
> In{lhs:$a,rhs:[Subquery($l)],in_span:@1,not_in:false}
= <ident:a> NOT~1 IN~1 ( <subquery:l> )
> In{lhs:$a,rhs:[Subquery($l)],in_span:@1,not_in:true}
= <ident:a> LIKE~1 <str:b>
> Binary{op:Like,op_span:@1,lhs:$a,rhs:String($b)}
= <ident:a> NOT~1 LIKE~1 <ident:b>
> Binary{op:NotLike,op_span:@1,lhs:$a,rhs:$b}

rule xstmt
= SELECT~s <x:a>
> Select(Select{select_span:@s,flags:[],select_exprs:[SelectExpr{expr:$a,as_:None}],from_span:None,table_references:None,where_:None,group_by:None,having:None,window_span:None,order_by:None,limit:None,locking:None})
= SELECT~s <ident:z> FROM~f <qname:t> WHERE~w <x:a>
> Select(Select{select_span:@s,flags:[],select_exprs:[SelectExpr{expr:$z,as_:None}],from_span:Some(@f),table_references:Some([Table{identifier:$t,as_span:None,as_:None,index_hints:[]}]),where_:Some(($a,@w)),group_by:None,having:None,window_span:None,order_by:None,limit:None,locking:None})
= SET~s <id:v> = <x:a>
> Set(Set{set_span:@s,values:[($v,$a)]})
