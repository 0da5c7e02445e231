T = 'src/sql/ast/typing.rs'
PRE = '''
#![allow(unused)]
use super::super::{SqlStatement, Statement};
use super::{SetContext, RowType};
use crate::sql::{parser::SqlStatementParser, schema::*, symbols::Name, types::DataType};
use std::collections::BTreeMap;

fn table(name: &str, cols: &[(&str, bool, DataType)]) -> (Name, SchemaObject) {
    let columns = cols.iter().map(|c| Column { name: Name::from(c.0), not_null: c.1, primary_key: false, data_type: c.2 }).collect();
    (Name::from(name), SchemaObject::Table(Table { name: Name::from(name), rows: RowSet { columns }, primary_key: vec![] }))
}
// T(a number not null, b number, s varchar, l logical, d date), U(a number, x varchar not null) in MAIN; V(q number) in OTHER
fn context() -> SetContext {
    use crate::sql::types::DataType::*;
    let mut db = Database::new();
    for (schema, objects) in vec![
        ("main", vec![table("t", &[("a", true, Numeric), ("b", false, Numeric), ("s", false, Varchar), ("l", false, Logical), ("d", true, Date)]),
                      table("u", &[("a", false, Numeric), ("x", true, Varchar)])]),
        ("other", vec![table("v", &[("q", false, Numeric)])]),
    ] {
        db.schemata.insert(Name::from(schema), Schema { name: Name::from(schema), objects: objects.into_iter().collect() });
    }
    SetContext::new(&db, Name::from("main"))
}
fn check(s: &str) -> bool {
    match SqlStatementParser::new().parse(s) {
        Ok(x) => x.validate_type(&context()).is_ok(),
        Err(_) => panic!("syntax: {}", s),
    }
}
fn row(s: &str) -> Vec<(String, DataType, bool)> {
    match SqlStatementParser::new().parse(s) {
        Ok(SqlStatement::Statement(Statement::Select(x))) => match x.infer_type(&context()) {
            Ok(r) => r.attributes.iter().map(|a| (a.name.to_string(), a.typ, a.is_null)).collect(),
            Err(_) => panic!("ill-typed: {}", s),
        },
        _ => panic!("syntax: {}", s),
    }
}
fn typ(e: &str) -> (DataType, bool) {
    let r = row(&format!("select {} from t", e));
    (r[0].1, r[0].2)
}
'''


def seed(id, reps, needs, breaks, body, file=T):
    return dict(id=id, property=id[:3].upper(), file=file, reps=reps, needs=needs, breaks=breaks, mod=T, demo=PRE + '#[test]\nfn holds() {\n' + body.strip('\n') + '\n}\n')


SEEDS = [
 seed('c19-order-first', [('for ref iter in &self.order_by {', 'for ref iter in self.order_by.iter().take(2) {')],
      'ORDER BY with three terms, the last ill-typed', 'the third and later terms are not checked', '''
    assert!(!check("select a from t order by a + s"));
    assert!(check("select a, b, s from t order by a, b, s"));
    assert!(!check("select a, b, s from t order by a, b, a + s"));
'''),
 seed('c19-explain', [('''            &SqlStatement::ExplainQueryPlan(ref statement) => {
                let _ = statement.validate_type(context)?;''', '''            &SqlStatement::ExplainQueryPlan(ref statement) => {
                let _ = statement.validate_type(context);''')],
      'EXPLAIN of an ill-typed statement', 'it passes validation', '''
    assert!(check("explain select a from t"));
    assert!(!check("select a + s from t"));
    assert!(!check("explain select a + s from t"));
'''),
 seed('c19-offset', [('if let &Some(ref offset_value) = &self.offset_value {', 'if let (&Some(ref offset_value), false) = (&self.offset_value, is_constant(&self.number_rows)) {'),
                     ('fn generate_column_name(', 'fn is_constant(expr: &Expression) -> bool {\n    match expr {\n        &Expression::Literal(_) => true,\n        _ => false,\n    }\n}\n\nfn generate_column_name(')],
      'a LIMIT with a literal row count and an ill-typed offset', 'the offset is not checked', '''
    assert!(check("select a from t limit 1 offset 2"));
    assert!(!check("select a from t limit 1 + 1 offset 'x'"));
    assert!(!check("select a from t limit 1 offset 'x'"));
'''),
 seed('c20-between-upper', [('is_null: null1 | null2 | null3', 'is_null: null1 | null2')],
      'BETWEEN whose upper bound alone may be null', 'its result is taken never to be null', '''
    assert_eq!(typ("a between 1 and 2"), (DataType::Logical, false));
    assert_eq!(typ("a between b and 2"), (DataType::Logical, true));
    assert_eq!(typ("a between 1 and b"), (DataType::Logical, true));
'''),
 seed('c20-between-type', [('if typ1 == typ2 && typ1 == typ3 && typ1.is_ordered()', 'if typ1 == typ2 && typ3.is_ordered() && typ1.is_ordered()')],
      'BETWEEN whose upper bound has another type', 'it is accepted', '''
    assert!(check("select a between 1 and 2 from t"));
    assert!(!check("select a between 'x' and 2 from t"));
    assert!(!check("select a between 1 and 'x' from t"));
'''),
 seed('c20-time-literal', [('''&Literal::TimeLiteral(_) => ScalarType::Scalar {
                typ: types::DataType::Time,''', '''&Literal::TimeLiteral(_) => ScalarType::Scalar {
                typ: types::DataType::Timestamp,''')],
      'a TIME literal', 'it has the type of a timestamp', '''
    assert_eq!(typ("time '10:00'"), (DataType::Time, false));
    assert_eq!(typ("current_time"), (DataType::Time, false));
    assert_eq!(typ("timestamp 'x'"), (DataType::Timestamp, false));
'''),
 seed('c20-ordered', [('            | &DataType::Date\n            | &DataType::Time\n', '            | &DataType::Date\n')],
      'ordering two times', 'it is refused', '''
    assert!(check("select d < current_date from t"));
    assert!(check("select current_time < time '10:00' from t"));
    assert!(!check("select l < l from t"));
''', file='src/sql/types.rs'),
 seed('c21-select-columns', [('''                if select_type.attributes.len() == 1 {
                    Ok(ScalarType::Scalar {''', '''                if select_type.attributes[1..].is_empty() {
                    Ok(ScalarType::Scalar {''')],
      'a sub-select over no tables that selects all columns, of which there are none', 'validation panics', '''
    assert!(check("select (select a from t) from t"));
    assert!(!check("select (select a, b from t) from t"));
    assert!(!check("select (select *) from t"));
'''),
 seed('c21-set-select', [('''                if set_type.attributes.len() != 1 {
                    return''', '''                if set_type.attributes.len() > 1 {
                    return''')],
      'IN with a sub-select that has no columns', 'validation panics', '''
    assert!(check("select a in (select b from t) from t"));
    assert!(!check("select a in (select a, b from t) from t"));
    assert!(!check("select a in (select *) from t"));
'''),
 seed('c22-values-rows', [('fold_err(component_types, (&rows[1..]).iter(), |types, vals| {', 'fold_err(component_types, (&rows[1..]).iter().take(8), |types, vals| {')],
      'VALUES with ten rows, the last of other types', 'the rows behind the ninth are not compared', '''
    let rows = vec!["(1, 'a')"; 9].join(", ");
    assert!(check(&format!("values {}", rows)));
    assert!(!check("values (1, 'a'), (2, 3)"));
    assert!(!check(&format!("values {}, ('x', 'a')", rows)));
'''),
 seed('c22-update-null', [('if *column_type != typ || (is_null && !colummn_is_null) {', 'if *column_type != typ || (is_null && !colummn_is_null && assigned_columns.is_empty()) {')],
      'an UPDATE whose second assignment may be null for a column that may not', 'it is accepted', '''
    assert!(check("update t set b = a, a = a"));
    assert!(!check("update t set a = b"));
    assert!(!check("update t set b = a, a = b"));
'''),
 seed('c22-insert-missing', [('for (ref name, &(_, ref is_null)) in &row_type_map {\n            if !is_null {', 'for (ref name, &(_, ref is_null)) in row_type_map.iter().take(1) {\n            if !is_null {')],
      'INSERT that leaves out an optional column and, behind it in the alphabet, a mandatory one', 'it is accepted', '''
    assert!(check("insert into t (a, d) values (1, current_date)"));
    assert!(!check("insert into t (b, s, l, d) values (1, 's', 1 = 1, current_date)"));
    assert!(!check("insert into t (a) values (1)"));
'''),
 seed('c22-set-op-names', [('let name = left_attr.name.clone();', 'let name = if left_attr.typ == types::DataType::Generic { right_attr.name.clone() } else { left_attr.name.clone() };')],
      'a set operation on columns of NULLs', 'the result has the names of the second operand', '''
    let names = |s: &str| row(s).into_iter().map(|c| c.0).collect::<Vec<_>>();
    assert_eq!(names("select a from t union select b from t"), ["a"]);
    assert_eq!(names("select null as p from t union select null as q from t"), ["p"]);
'''),
 seed('c31-schema-cte', [('''                match self.table_expression.get(&qualified_name[0]) {
                    Some(_) => {
                        return Err(Error::from(
                            "Schema name is hidden by common table expression",
                        ))
                    }
                    None => (),
                }
''', '''                match self.table_expression.get(&qualified_name[1]) {
                    Some(ref row_type) => return Ok(row_type),
                    None => (),
                }
''')],
      'a schema-qualified table name whose table part is also the name of a common table expression', 'the common table expression is taken', '''
    assert_eq!(row("select q from other.v")[0].1, DataType::Numeric);
    assert_eq!(row("with v as (select s as q from t) select q from v")[0].1, DataType::Varchar);
    assert_eq!(row("with v as (select s as q from t) select q from other.v")[0].1, DataType::Numeric);
'''),
 seed('c31-conflict', [('''                Some(&ScalarContextSymbol::Attribute(_)) => mem::drop(self.symbols.insert(
                    attribute.name.clone(),
                    ScalarContextSymbol::AttributeConflict,
                )),
                Some(&ScalarContextSymbol::AttributeConflict) => (),''', '''                Some(&ScalarContextSymbol::Attribute(_)) => mem::drop(self.symbols.insert(
                    attribute.name.clone(),
                    ScalarContextSymbol::AttributeConflict,
                )),
                Some(&ScalarContextSymbol::AttributeConflict) => mem::drop(self.symbols.insert(
                    attribute.name.clone(),
                    ScalarContextSymbol::Attribute(ScalarType::Scalar {
                        typ: attribute.typ,
                        is_null: attribute.is_null,
                    }),
                )),''')],
      'three relations in scope that share a column name', 'the ambiguous name is accepted', '''
    assert!(check("select t.a from t, u"));
    assert!(!check("select a from t, u"));
    assert!(!check("select a from t, u, u as w"));
'''),
 seed('c31-alias', [('''                let identifier = match alias {
                    &Some(ref id) => id.clone(),
                    &None => name.last().unwrap().clone(),
                };''', '''                let identifier = match alias {
                    &Some(ref id) => id.clone(),
                    &None => name[0].clone(),
                };''')],
      'a table given with its schema', 'its columns are known under the name of the schema, not of the table', '''
    assert!(check("select t.a from t"));
    assert!(check("select w.q from other.v as w"));
    assert!(check("select v.q from other.v"));
    assert!(!check("select other.q from other.v"));
'''),
 seed('c31-update-alias', [('let identifier = self.table_name.last().unwrap().clone();\n        let mut scalar_context = ScalarContext::new(&context);\n\n',
                            'let identifier = self.table_name.first().unwrap().clone();\n        let mut scalar_context = ScalarContext::new(&context);\n\n')],
      'UPDATE of a table given with its schema', 'its columns cannot be named with the name of the table', '''
    assert!(check("update t set a = t.a"));
    assert!(check("update other.v set q = q"));
    assert!(check("update other.v set q = v.q where v.q = 1"));
'''),
]
