rule width
=
> None
= ( <int:n> )
> Some($n)

rule width1
=0 ( <int:n> )
> Some($n)

rule strs
= <str:a>
> [$a]
= <str:a> , <str:b>
> [$a,$b]
= <str:a> , <str:b> , <str:c>
> [$a,$b,$c]

rule btype
= INT~1
> identifier:@1,type_:Int(None)
= TINYINT~1 <width:w>
> identifier:@1,type_:TinyInt($w)
= TINYINT~1 <width1:w>
> identifier:@1,type_:TinyInt($w)
= SMALLINT~1 <width:w>
> identifier:@1,type_:SmallInt($w)
= SMALLINT~1 <width1:w>
> identifier:@1,type_:SmallInt($w)
= INTEGER~1 <width:w>
> identifier:@1,type_:Integer($w)
= INTEGER~1 <width1:w>
> identifier:@1,type_:Integer($w)
= INT~1 <width1:w>
> identifier:@1,type_:Int($w)
= BIGINT~1 <width:w>
> identifier:@1,type_:BigInt($w)
= BIGINT~1 <width1:w>
> identifier:@1,type_:BigInt($w)
= TINYTEXT~1 <width:w>
> identifier:@1,type_:TinyText($w)
= TINYTEXT~1 <width1:w>
> identifier:@1,type_:TinyText($w)
= CHAR~1 <width:w>
> identifier:@1,type_:Char($w)
= CHAR~1 <width1:w>
> identifier:@1,type_:Char($w)
= TEXT~1 <width:w>
> identifier:@1,type_:Text($w)
= TEXT~1 <width1:w>
> identifier:@1,type_:Text($w)
= MEDIUMTEXT~1 <width:w>
> identifier:@1,type_:MediumText($w)
= MEDIUMTEXT~1 <width1:w>
> identifier:@1,type_:MediumText($w)
= LONGTEXT~1 <width:w>
> identifier:@1,type_:LongText($w)
= LONGTEXT~1 <width1:w>
> identifier:@1,type_:LongText($w)
= VARCHAR~1 <width:w>
> identifier:@1,type_:VarChar($w)
= VARCHAR~1 <width1:w>
> identifier:@1,type_:VarChar($w)
= TINYBLOB~1 <width:w>
> identifier:@1,type_:TinyBlob($w)
= TINYBLOB~1 <width1:w>
> identifier:@1,type_:TinyBlob($w)
= BLOB~1 <width:w>
> identifier:@1,type_:Blob($w)
= BLOB~1 <width1:w>
> identifier:@1,type_:Blob($w)
= MEDIUMBLOB~1 <width:w>
> identifier:@1,type_:MediumBlob($w)
= MEDIUMBLOB~1 <width1:w>
> identifier:@1,type_:MediumBlob($w)
= LONGBLOB~1 <width:w>
> identifier:@1,type_:LongBlob($w)
= LONGBLOB~1 <width1:w>
> identifier:@1,type_:LongBlob($w)
= BINARY~1 <width:w>
> identifier:@1,type_:Binary($w)
= BINARY~1 <width1:w>
> identifier:@1,type_:Binary($w)
= DATETIME~1 <width:w>
> identifier:@1,type_:DateTime($w)
= DATETIME~1 <width1:w>
> identifier:@1,type_:DateTime($w)
= TIME~1 <width:w>
> identifier:@1,type_:Time($w)
= TIME~1 <width1:w>
> identifier:@1,type_:Time($w)
= BOOLEAN~1
> identifier:@1,type_:Boolean
= INET4~1
> identifier:@1,type_:Inet4
= INET6~1
> identifier:@1,type_:Inet6
= FLOAT8~1
> identifier:@1,type_:Float8
= TIMESTAMPTZ~1
> identifier:@1,type_:Timestamptz
= DATE~1
> identifier:@1,type_:Date
= JSON~1
> identifier:@1,type_:Json
= BYTEA~1
> identifier:@1,type_:Bytea
=[mp] REAL~1
> identifier:@1,type_:Float(None)
=[s] REAL~1
> identifier:@1,type_:Double(None)
= FLOAT~1
> identifier:@1,type_:Float(None)
=[ms] DOUBLE~1
> identifier:@1,type_:Double(None)
=[p] DOUBLE~1 PRECISION~1
> identifier:@1,type_:Double(None)
= VARBINARY~1 ( <int:n> )
> identifier:@1,type_:VarBinary($n)
= BIT~1 ( <int:n> )
> identifier:@1,type_:Bit(%n,@n)
= NUMERIC~1 (~s <int:a> , <int:b> )~s
> identifier:@1,type_:Numeric(%a,%b,@s)
= TIMESTAMP~1 <width:w>
> identifier:@1,type_:Timestamp(Timestamp{width:$w,with_time_zone:None})
= TIMESTAMP~1 <width:w> WITH~z TIME~z ZONE~z
> identifier:@1,type_:Timestamp(Timestamp{width:$w,with_time_zone:Some(@z)})
= TIMESTAMP~1 <width1:w>
> identifier:@1,type_:Timestamp(Timestamp{width:$w,with_time_zone:None})
= ENUM~1 ( <strs:s> )
> identifier:@1,type_:Enum($s)
= SET~1 ( <strs:s> )
> identifier:@1,type_:Set($s)
=[p!n] <id:n>
> identifier:@n,type_:Named(@n)

rule type
= <btype:b>
> DataType{$b,properties:[]}

rule dflt
= <int:a>
> Integer($a)
= <str:a>
> String($a)
= NULL~n
> Null(@n)
= CURRENT_TIMESTAMP~c
> Function(CurrentTimestamp,[],@c)
= CURRENT_TIMESTAMP~c ( )
> Function(CurrentTimestamp,[],@c)
= -~m <int:a>
> Unary{op:Minus,op_span:@m,operand:Integer($a)}
= ( <e:x> )
> $x
= TRUE~1
> Bool(true,@1)
= <float:a>
> Float($a)

rule prop
= NOT~1 NULL~1
> NotNull(@1)
= NULL~1
> Null(@1)
= SIGNED~1
> Signed(@1)
= UNSIGNED~1
> Unsigned(@1)
= ZEROFILL~1
> Zerofill(@1)
= AUTO_INCREMENT~1
> AutoIncrement(@1)
= VIRTUAL~1
> Virtual(@1)
= PERSISTENT~1
> Persistent(@1)
= STORED~1
> Stored(@1)
= UNIQUE~1
> Unique(@1)
= UNIQUE~1 KEY~1
> UniqueKey(@1)
= PRIMARY~1 KEY~1
> PrimaryKey(@1)
= DEFAULT <dflt:d>
> Default($d)
= COMMENT <str:s>
> Comment($s)
= CHARACTER SET <id:i>
> Charset($i)
= COLLATE <id:i>
> Collate($i)
=[ms] GENERATED~1 ALWAYS~1
> GeneratedAlways(@1)
=[p] GENERATED~1 ALWAYS~1 AS~1 IDENTITY~1
> GeneratedAlways(@1)
= AS~1 ( <e:x> )
> As((@1,$x))
= CHECK~1 ( <e:x> )
> Check((@1,$x))

rule props
=
> []
= <prop:a>
> [$a]
= <prop:a> <prop:b>
> [$a,$b]
= <prop:a> <prop:b> <prop:c>
> [$a,$b,$c]

rule coltype
= <btype:b> <props:p>
> DataType{$b,properties:$p}

rule coldef
= <id:c> <coltype:t>
> ColumnDefinition{identifier:$c,data_type:$t}
= <qid:c> <coltype:t>
> ColumnDefinition{identifier:$c,data_type:$t}

