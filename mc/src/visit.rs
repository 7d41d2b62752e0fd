// Written by tools/gen_visit.py: a walk over every node of the public tree that has a span of its own.
#![allow(unused_parens, unused_variables, clippy::all)]
use sql_parse::*;

pub trait Visitor {
    fn node<T: Spanned + std::fmt::Debug>(&mut self, name: &'static str, x: &T);
}

pub trait Walk {
    fn walk<V: Visitor>(&self, f: &mut V);
}

impl<'a> Walk for AlterColumnAction<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("AlterColumnAction", self);
        match self {
            AlterColumnAction::SetDefault { value, .. } => {
                value.walk(f);
            }
            AlterColumnAction::Type { type_, .. } => {
                type_.walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for AlterSpecification<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("AlterSpecification", self);
        match self {
            AlterSpecification::AddColumn { identifier, data_type, .. } => {
                identifier.walk(f);
                data_type.walk(f);
            }
            AlterSpecification::AddIndex { index_type, name, constraint, cols, index_options, .. } => {
                index_type.walk(f);
                for x29 in name.iter() {
                    x29.walk(f);
                }
                for x31 in constraint.iter() {
                    for x34 in (&x31.1).iter() {
                        x34.walk(f);
                    }
                }
                for x36 in cols.iter() {
                    x36.walk(f);
                }
                for x38 in index_options.iter() {
                    x38.walk(f);
                }
            }
            AlterSpecification::AddForeignKey { constraint, name, cols, references_table, references_cols, ons, .. } => {
                for x56 in constraint.iter() {
                    for x59 in (&x56.1).iter() {
                        x59.walk(f);
                    }
                }
                for x64 in name.iter() {
                    x64.walk(f);
                }
                for x66 in cols.iter() {
                    x66.walk(f);
                }
                references_table.walk(f);
                for x70 in references_cols.iter() {
                    x70.walk(f);
                }
                for x72 in ons.iter() {
                    x72.walk(f);
                }
            }
            AlterSpecification::Modify { col, definition, .. } => {
                col.walk(f);
                definition.walk(f);
            }
            AlterSpecification::DropColumn { column, .. } => {
                column.walk(f);
            }
            AlterSpecification::AlterColumn { column, alter_column_action, .. } => {
                column.walk(f);
                alter_column_action.walk(f);
            }
            AlterSpecification::OwnerTo { owner, .. } => {
                owner.walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for AlterTable<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("AlterTable", self);
        (&self.table).walk(f);
        for x130 in (&self.alter_specifications).iter() {
            x130.walk(f);
        }
    }
}

impl Walk for BinaryOperator {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for CreateAlgorithm {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("CreateAlgorithm", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for CreateDefinition<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("CreateDefinition", self);
        match self {
            CreateDefinition::ColumnDefinition { identifier, data_type, .. } => {
                identifier.walk(f);
                data_type.walk(f);
            }
            CreateDefinition::ConstraintDefinition { identifier, .. } => {
                identifier.walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for CreateFunction<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("CreateFunction", self);
        for x144 in (&self.create_options).iter() {
            x144.walk(f);
        }
        (&self.name).walk(f);
        for x150 in (&self.params).iter() {
            for x152 in (&x150.0).iter() {
                f.node("FunctionParamDirection", x152);
            }
            (&x150.1).walk(f);
            (&x150.2).walk(f);
        }
        (&self.return_type).walk(f);
        for x158 in (&self.characteristics).iter() {
            f.node("FunctionCharacteristic", x158);
        }
        for x160 in (&self.return_).iter() {
            (&**x160).walk(f);
        }
    }
}

impl<'a> Walk for CreateOption<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("CreateOption", self);
        match self {
            CreateOption::Algorithm(v0, v1) => {
                v1.walk(f);
            }
            CreateOption::Definer { user, host, .. } => {
                user.walk(f);
                host.walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for CreateTable<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("CreateTable", self);
        for x179 in (&self.create_options).iter() {
            x179.walk(f);
        }
        (&self.identifier).walk(f);
        for x185 in (&self.create_definitions).iter() {
            x185.walk(f);
        }
        for x187 in (&self.options).iter() {
            x187.walk(f);
        }
    }
}

impl<'a> Walk for CreateTrigger<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("CreateTrigger", self);
        for x190 in (&self.create_options).iter() {
            x190.walk(f);
        }
        (&self.name).walk(f);
        f.node("TriggerTime", (&self.trigger_time));
        f.node("TriggerEvent", (&self.trigger_event));
        (&self.table).walk(f);
        (&**(&self.statement)).walk(f);
    }
}

impl<'a> Walk for CreateView<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("CreateView", self);
        for x204 in (&self.create_options).iter() {
            x204.walk(f);
        }
        (&self.name).walk(f);
        (&**(&self.select)).walk(f);
    }
}

impl<'a> Walk for DataType<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DataType", self);
        (&self.type_).walk(f);
        for x215 in (&self.properties).iter() {
            x215.walk(f);
        }
    }
}

impl<'a> Walk for DataTypeProperty<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DataTypeProperty", self);
        match self {
            DataTypeProperty::Default(v0) => {
                (&**v0).walk(f);
            }
            DataTypeProperty::Comment(v0) => {
                v0.walk(f);
            }
            DataTypeProperty::Charset(v0) => {
                v0.walk(f);
            }
            DataTypeProperty::Collate(v0) => {
                v0.walk(f);
            }
            DataTypeProperty::As(v0) => {
                (&**(&v0.1)).walk(f);
            }
            DataTypeProperty::Check(v0) => {
                (&**(&v0.1)).walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for Delete<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("Delete", self);
        for x244 in (&self.flags).iter() {
            x244.walk(f);
        }
        for x247 in (&self.tables).iter() {
            x247.walk(f);
        }
        for x249 in (&self.using).iter() {
            x249.walk(f);
        }
        for x251 in (&self.where_).iter() {
            (&x251.0).walk(f);
        }
        for x255 in (&self.returning).iter() {
            for x258 in (&x255.1).iter() {
                x258.walk(f);
            }
        }
    }
}

impl Walk for DeleteFlag {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DeleteFlag", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for DropDatabase<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropDatabase", self);
        (&self.database).walk(f);
    }
}

impl<'a> Walk for DropEvent<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropEvent", self);
        (&self.event).walk(f);
    }
}

impl<'a> Walk for DropFunction<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropFunction", self);
        (&self.function).walk(f);
    }
}

impl<'a> Walk for DropIndex<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropIndex", self);
        (&self.index_name).walk(f);
        for x283 in (&self.on).iter() {
            (&x283.1).walk(f);
        }
    }
}

impl<'a> Walk for DropProcedure<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropProcedure", self);
        (&self.procedure).walk(f);
    }
}

impl<'a> Walk for DropServer<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropServer", self);
        (&self.server).walk(f);
    }
}

impl<'a> Walk for DropTable<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropTable", self);
        for x303 in (&self.tables).iter() {
            x303.walk(f);
        }
    }
}

impl<'a> Walk for DropTrigger<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropTrigger", self);
        (&self.identifier).walk(f);
    }
}

impl<'a> Walk for DropView<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("DropView", self);
        for x318 in (&self.views).iter() {
            x318.walk(f);
        }
    }
}

impl<'a> Walk for Expression<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("Expression", self);
        match self {
            Expression::Binary { op, lhs, rhs, .. } => {
                op.walk(f);
                (&**lhs).walk(f);
                (&**rhs).walk(f);
            }
            Expression::Unary { op, operand, .. } => {
                op.walk(f);
                (&**operand).walk(f);
            }
            Expression::Subquery(v0) => {
                (&**v0).walk(f);
            }
            Expression::String(v0) => {
                v0.walk(f);
            }
            Expression::Function(v0, v1, v2) => {
                v0.walk(f);
                for x356 in v1.iter() {
                    x356.walk(f);
                }
            }
            Expression::WindowFunction { function, args, window_spec, .. } => {
                function.walk(f);
                for x360 in args.iter() {
                    x360.walk(f);
                }
                f.node("WindowSpec", window_spec);
                for x367 in (&(&window_spec.order_by).1).iter() {
                    (&x367.0).walk(f);
                }
            }
            Expression::Identifier(v0) => {
                for x383 in v0.iter() {
                    x383.walk(f);
                }
            }
            Expression::Interval { time_unit, .. } => {
                (&time_unit.0).walk(f);
            }
            Expression::Exists(v0) => {
                (&**v0).walk(f);
            }
            Expression::Extract { time_unit, date, .. } => {
                (&time_unit.0).walk(f);
                (&**date).walk(f);
            }
            Expression::In { lhs, rhs, .. } => {
                (&**lhs).walk(f);
                for x422 in rhs.iter() {
                    x422.walk(f);
                }
            }
            Expression::Is(v0, v1, v2) => {
                (&**v0).walk(f);
                v1.walk(f);
            }
            Expression::Case { value, whens, else_, .. } => {
                for x438 in value.iter() {
                    (&**x438).walk(f);
                }
                for x441 in whens.iter() {
                    x441.walk(f);
                }
                for x443 in else_.iter() {
                    (&**(&x443.1)).walk(f);
                }
            }
            Expression::Cast { expr, type_, .. } => {
                (&**expr).walk(f);
                type_.walk(f);
            }
            Expression::Count { expr, .. } => {
                (&**expr).walk(f);
            }
            Expression::GroupConcat { expr, .. } => {
                (&**expr).walk(f);
            }
            Expression::Variable { variable, .. } => {
                variable.walk(f);
            }
            Expression::TimestampAdd { unit, interval, datetime, .. } => {
                (&unit.0).walk(f);
                (&**interval).walk(f);
                (&**datetime).walk(f);
            }
            Expression::TimestampDiff { unit, e1, e2, .. } => {
                (&unit.0).walk(f);
                (&**e1).walk(f);
                (&**e2).walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for ForeignKeyOn {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("ForeignKeyOn", self);
        (&self.type_).walk(f);
        (&self.action).walk(f);
    }
}

impl Walk for ForeignKeyOnAction {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("ForeignKeyOnAction", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for ForeignKeyOnType {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("ForeignKeyOnType", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for Function<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for Identifier<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("Identifier", self);
    }
}

impl<'a> Walk for IdentifierPart<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("IdentifierPart", self);
        match self {
            IdentifierPart::Name(v0) => {
                v0.walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for IndexCol<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("IndexCol", self);
        (&self.name).walk(f);
    }
}

impl<'a> Walk for IndexHint<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("IndexHint", self);
        (&self.use_).walk(f);
        (&self.type_).walk(f);
        for x560 in (&self.for_).iter() {
            (&x560.1).walk(f);
        }
        for x565 in (&self.index_list).iter() {
            x565.walk(f);
        }
    }
}

impl Walk for IndexHintFor {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("IndexHintFor", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for IndexHintType {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("IndexHintType", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for IndexHintUse {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("IndexHintUse", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for IndexOption<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("IndexOption", self);
        match self {
            IndexOption::Comment(v0) => {
                v0.walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for IndexType {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("IndexType", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for InsertReplace<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("InsertReplace", self);
        (&self.type_).walk(f);
        for x586 in (&self.flags).iter() {
            x586.walk(f);
        }
        (&self.table).walk(f);
        for x591 in (&self.columns).iter() {
            x591.walk(f);
        }
        for x593 in (&self.values).iter() {
            for x596 in (&x593.1).iter() {
                for x597 in x596.iter() {
                    x597.walk(f);
                }
            }
        }
        for x599 in (&self.select).iter() {
            x599.walk(f);
        }
        for x601 in (&self.set).iter() {
            x601.walk(f);
        }
        for x603 in (&self.on_duplicate_key_update).iter() {
            x603.walk(f);
        }
        for x605 in (&self.on_conflict).iter() {
            x605.walk(f);
        }
        for x607 in (&self.returning).iter() {
            for x610 in (&x607.1).iter() {
                x610.walk(f);
            }
        }
    }
}

impl Walk for InsertReplaceFlag {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("InsertReplaceFlag", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for InsertReplaceOnDuplicateKeyUpdate<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("InsertReplaceOnDuplicateKeyUpdate", self);
        for x617 in (&self.pairs).iter() {
            x617.walk(f);
        }
    }
}

impl<'a> Walk for InsertReplaceSet<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("InsertReplaceSet", self);
        for x620 in (&self.pairs).iter() {
            x620.walk(f);
        }
    }
}

impl<'a> Walk for InsertReplaceSetPair<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("InsertReplaceSetPair", self);
        (&self.column).walk(f);
        (&self.value).walk(f);
    }
}

impl Walk for InsertReplaceType {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("InsertReplaceType", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for Is {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for JoinSpecification<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("JoinSpecification", self);
        match self {
            JoinSpecification::On(v0, v1) => {
                v0.walk(f);
            }
            JoinSpecification::Using(v0, v1) => {
                for x629 in v0.iter() {
                    x629.walk(f);
                }
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for JoinType {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("JoinType", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for OnConflict<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("OnConflict", self);
        (&self.target).walk(f);
        (&self.action).walk(f);
    }
}

impl<'a> Walk for OnConflictAction<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("OnConflictAction", self);
        match self {
            OnConflictAction::DoUpdateSet { sets, .. } => {
                for x647 in sets.iter() {
                    (&x647.0).walk(f);
                    (&x647.1).walk(f);
                }
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for OnConflictTarget<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            OnConflictTarget::Columns { names, .. } => {
                for x664 in names.iter() {
                    x664.walk(f);
                }
            }
            OnConflictTarget::OnConstraint { name, .. } => {
                name.walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for QualifiedName<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("QualifiedName", self);
        for x672 in (&self.prefix).iter() {
            (&x672.0).walk(f);
        }
        (&self.identifier).walk(f);
    }
}

impl<'a> Walk for RenameTable<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("RenameTable", self);
        for x680 in (&self.table_to_tables).iter() {
            x680.walk(f);
        }
    }
}

impl<'a> Walk for SString<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("SString", self);
    }
}

impl<'a> Walk for Select<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("Select", self);
        for x685 in (&self.flags).iter() {
            x685.walk(f);
        }
        for x687 in (&self.select_exprs).iter() {
            x687.walk(f);
        }
        for x691 in (&self.table_references).iter() {
            for x692 in x691.iter() {
                x692.walk(f);
            }
        }
        for x694 in (&self.where_).iter() {
            (&x694.0).walk(f);
        }
        for x698 in (&self.group_by).iter() {
            for x701 in (&x698.1).iter() {
                x701.walk(f);
            }
        }
        for x703 in (&self.having).iter() {
            (&x703.0).walk(f);
        }
        for x709 in (&self.order_by).iter() {
            for x712 in (&x709.1).iter() {
                (&x712.0).walk(f);
            }
        }
        for x716 in (&self.limit).iter() {
            for x719 in (&x716.1).iter() {
                x719.walk(f);
            }
            (&x716.2).walk(f);
        }
        for x722 in (&self.locking).iter() {
            f.node("Locking", x722);
            f.node("LockStrength", (&x722.strength));
            for x726 in (&x722.of).iter() {
                for x729 in (&x726.1).iter() {
                    x729.walk(f);
                }
            }
        }
    }
}

impl<'a> Walk for SelectExpr<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("SelectExpr", self);
        (&self.expr).walk(f);
        for x733 in (&self.as_).iter() {
            x733.walk(f);
        }
    }
}

impl Walk for SelectFlag {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("SelectFlag", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for Statement<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("Statement", self);
        match self {
            Statement::CreateIndex(v0) => {
                f.node("CreateIndex", v0);
                for x747 in (&v0.create_options).iter() {
                    x747.walk(f);
                }
                (&v0.index_name).walk(f);
                (&v0.table_name).walk(f);
                for x755 in (&v0.index_options).iter() {
                    f.node("CreateIndexOption", x755);
                }
                for x758 in (&v0.column_names).iter() {
                    x758.walk(f);
                }
                for x761 in (&v0.where_).iter() {
                    (&x761.1).walk(f);
                }
            }
            Statement::CreateTable(v0) => {
                v0.walk(f);
            }
            Statement::CreateView(v0) => {
                v0.walk(f);
            }
            Statement::CreateTrigger(v0) => {
                v0.walk(f);
            }
            Statement::CreateFunction(v0) => {
                v0.walk(f);
            }
            Statement::Select(v0) => {
                v0.walk(f);
            }
            Statement::Delete(v0) => {
                v0.walk(f);
            }
            Statement::InsertReplace(v0) => {
                v0.walk(f);
            }
            Statement::Update(v0) => {
                v0.walk(f);
            }
            Statement::DropIndex(v0) => {
                v0.walk(f);
            }
            Statement::DropTable(v0) => {
                v0.walk(f);
            }
            Statement::DropFunction(v0) => {
                v0.walk(f);
            }
            Statement::DropProcedure(v0) => {
                v0.walk(f);
            }
            Statement::DropEvent(v0) => {
                v0.walk(f);
            }
            Statement::DropDatabase(v0) => {
                v0.walk(f);
            }
            Statement::DropServer(v0) => {
                v0.walk(f);
            }
            Statement::DropTrigger(v0) => {
                v0.walk(f);
            }
            Statement::DropView(v0) => {
                v0.walk(f);
            }
            Statement::Set(v0) => {
                f.node("Set", v0);
                for x784 in (&v0.values).iter() {
                    (&x784.0).walk(f);
                    (&x784.1).walk(f);
                }
            }
            Statement::Signal(v0) => {
                f.node("Signal", v0);
                (&v0.sql_state).walk(f);
                for x796 in (&v0.sets).iter() {
                    f.node("SignalConditionInformationName", (&x796.0));
                    (&x796.2).walk(f);
                }
            }
            Statement::AlterTable(v0) => {
                v0.walk(f);
            }
            Statement::Block(v0, v1) => {
                for x802 in v0.iter() {
                    x802.walk(f);
                }
            }
            Statement::If(v0) => {
                f.node("If", v0);
                for x811 in (&v0.conditions).iter() {
                    f.node("IfCondition", x811);
                    (&x811.search_condition).walk(f);
                    for x817 in (&x811.then).iter() {
                        x817.walk(f);
                    }
                }
                for x819 in (&v0.else_).iter() {
                    for x822 in (&x819.1).iter() {
                        x822.walk(f);
                    }
                }
            }
            Statement::Union(v0) => {
                v0.walk(f);
            }
            Statement::Case(v0) => {
                f.node("CaseStatement", v0);
                for x829 in (&v0.value).iter() {
                    (&**x829).walk(f);
                }
                for x832 in (&v0.whens).iter() {
                    f.node("WhenStatement", x832);
                    (&x832.when).walk(f);
                    for x837 in (&x832.then).iter() {
                        x837.walk(f);
                    }
                }
                for x839 in (&v0.else_).iter() {
                    for x842 in (&x839.1).iter() {
                        x842.walk(f);
                    }
                }
            }
            Statement::Copy(v0) => {
                f.node("Copy", v0);
                (&v0.table).walk(f);
                for x848 in (&v0.columns).iter() {
                    x848.walk(f);
                }
            }
            Statement::CreateTypeEnum(v0) => {
                f.node("CreateTypeEnum", v0);
                for x856 in (&v0.create_options).iter() {
                    x856.walk(f);
                }
                (&v0.name).walk(f);
                for x861 in (&v0.values).iter() {
                    x861.walk(f);
                }
            }
            Statement::Do(v0, v1) => {
                for x863 in v0.iter() {
                    x863.walk(f);
                }
            }
            Statement::TruncateTable(v0) => {
                v0.walk(f);
            }
            Statement::RenameTable(v0) => {
                v0.walk(f);
            }
            Statement::WithQuery(v0) => {
                v0.walk(f);
            }
            Statement::Return(v0) => {
                f.node("Return", v0);
                (&v0.expr).walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for TableOption<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("TableOption", self);
        match self {
            TableOption::AutoExtendSize { value, .. } => {
                value.walk(f);
            }
            TableOption::AutoIncrement { value, .. } => {
                value.walk(f);
            }
            TableOption::AvgRowLength { value, .. } => {
                value.walk(f);
            }
            TableOption::CharSet { value, .. } => {
                value.walk(f);
            }
            TableOption::DefaultCharSet { value, .. } => {
                value.walk(f);
            }
            TableOption::Collate { value, .. } => {
                value.walk(f);
            }
            TableOption::DefaultCollate { value, .. } => {
                value.walk(f);
            }
            TableOption::Comment { value, .. } => {
                value.walk(f);
            }
            TableOption::Compression { value, .. } => {
                value.walk(f);
            }
            TableOption::Connection { value, .. } => {
                value.walk(f);
            }
            TableOption::DataDirectory { value, .. } => {
                value.walk(f);
            }
            TableOption::IndexDirectory { value, .. } => {
                value.walk(f);
            }
            TableOption::Engine { value, .. } => {
                value.walk(f);
            }
            TableOption::EngineAttribute { value, .. } => {
                value.walk(f);
            }
            TableOption::InsertMethod { value, .. } => {
                value.walk(f);
            }
            TableOption::Password { value, .. } => {
                value.walk(f);
            }
            TableOption::RowFormat { value, .. } => {
                value.walk(f);
            }
            TableOption::SecondaryEngineAttribute { value, .. } => {
                value.walk(f);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for TableReference<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("TableReference", self);
        match self {
            TableReference::Table { identifier, as_, index_hints, .. } => {
                identifier.walk(f);
                for x997 in as_.iter() {
                    x997.walk(f);
                }
                for x999 in index_hints.iter() {
                    x999.walk(f);
                }
            }
            TableReference::Query { query, as_, .. } => {
                (&**query).walk(f);
                for x1012 in as_.iter() {
                    x1012.walk(f);
                }
            }
            TableReference::Join { join, left, right, specification, .. } => {
                join.walk(f);
                (&**left).walk(f);
                (&**right).walk(f);
                for x1025 in specification.iter() {
                    x1025.walk(f);
                }
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for TableToTable<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("TableToTable", self);
        (&self.table).walk(f);
        (&self.new_table).walk(f);
    }
}

impl Walk for TimeUnit {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for TruncateTable<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("TruncateTable", self);
        (&self.table_name).walk(f);
    }
}

impl<'a> Walk for Type<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            Type::Enum(v0) => {
                for x1085 in v0.iter() {
                    x1085.walk(f);
                }
            }
            Type::Set(v0) => {
                for x1087 in v0.iter() {
                    x1087.walk(f);
                }
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl Walk for UnaryOperator {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for Union<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("Union", self);
        (&**(&self.left)).walk(f);
        for x1145 in (&self.with).iter() {
            x1145.walk(f);
        }
        for x1147 in (&self.order_by).iter() {
            for x1150 in (&x1147.1).iter() {
                (&x1150.0).walk(f);
            }
        }
        for x1154 in (&self.limit).iter() {
            for x1157 in (&x1154.1).iter() {
                x1157.walk(f);
            }
            (&x1154.2).walk(f);
        }
    }
}

impl Walk for UnionType {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for UnionWith<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("UnionWith", self);
        (&self.union_type).walk(f);
        (&**(&self.union_statement)).walk(f);
    }
}

impl<'a> Walk for Update<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("Update", self);
        for x1167 in (&self.flags).iter() {
            x1167.walk(f);
        }
        for x1169 in (&self.tables).iter() {
            x1169.walk(f);
        }
        for x1172 in (&self.set).iter() {
            for x1174 in (&x1172.0).iter() {
                x1174.walk(f);
            }
            (&x1172.1).walk(f);
        }
        for x1177 in (&self.where_).iter() {
            (&x1177.0).walk(f);
        }
        for x1181 in (&self.returning).iter() {
            for x1184 in (&x1181.1).iter() {
                x1184.walk(f);
            }
        }
    }
}

impl Walk for UpdateFlag {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("UpdateFlag", self);
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for Variable<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        match self {
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

impl<'a> Walk for When<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("When", self);
        (&self.when).walk(f);
        (&self.then).walk(f);
    }
}

impl<'a> Walk for WithBlock<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("WithBlock", self);
        (&self.identifier).walk(f);
        (&self.statement).walk(f);
    }
}

impl<'a> Walk for WithQuery<'a> {
    fn walk<V: Visitor>(&self, f: &mut V) {
        f.node("WithQuery", self);
        for x1199 in (&self.with_blocks).iter() {
            x1199.walk(f);
        }
        (&**(&self.statement)).walk(f);
    }
}
