S = 'src/sql/schema.rs'
PRE = '''
#![allow(unused)]
use super::schema::*;
use super::symbols::Name;
use super::types::DataType;

fn column(name: &str, not_null: bool, primary_key: bool, data_type: DataType) -> Column {
    Column { name: Name::from(name), not_null, primary_key, data_type }
}
fn table(name: &str, columns: Vec<Column>) -> (Name, SchemaObject) {
    (Name::from(name), SchemaObject::Table(Table { name: Name::from(name), rows: RowSet { columns }, primary_key: vec![] }))
}
fn view(name: &str, columns: Vec<Column>) -> (Name, SchemaObject) {
    (Name::from(name), SchemaObject::View(View { name: Name::from(name), rows: RowSet { columns }, query: String::new() }))
}
fn n(s: &str) -> Name {
    Name::from(s)
}
fn show(r: Result<RowSet, super::Error>) -> Option<Vec<(String, bool, bool, DataType)>> {
    r.ok().map(|r| r.columns.iter().map(|c| (c.name.to_string(), c.not_null, c.primary_key, c.data_type)).collect())
}
'''


def seed(id, reps, needs, breaks, body):
    return dict(id=id, property=id[:3].upper(), file=S, reps=reps, needs=needs, breaks=breaks, mod='src/sql/mod.rs', demo=PRE + '#[test]\nfn holds() {\n' + body.strip('\n') + '\n}\n')


SEEDS = [
 seed('c24-case-clash', [('if self.schemata.contains_key(schema_name) {', 'if self.schemata.keys().any(|name| name.as_str() == schema_name.as_str()) {'),
                         ('        let old_value = self.schemata\n', '        let _ = self.schemata\n'), ('        assert!(old_value.is_none());\n', '')],
      'creating a schema whose name differs from that of another in letter case only', 'the other schema and its objects are replaced', '''
    let mut db = Database::new();
    assert!(db.create_schema(&n("main")).is_ok());
    assert!(db.create_schema(&n("main")).is_err());
    let t = table("t", vec![column("a", true, true, DataType::Numeric)]);
    db.schemata.get_mut(&n("main")).unwrap().objects.insert(t.0, t.1);
    assert!(db.create_schema(&n("MAIN")).is_err());
    assert!(db.describe(&n("main"), &n("t")).is_ok());
'''),
 seed('c24-key-first', [('&SchemaObject::Table(ref table) => Ok(table.rows.clone()),', '''&SchemaObject::Table(ref table) => {
                let (keys, rest): (Vec<Column>, Vec<Column>) =
                    table.rows.columns.iter().cloned().partition(|column| column.primary_key);
                Ok(RowSet {
                    columns: keys.into_iter().chain(rest).collect(),
                })
            }''')],
      'describing a table whose key columns do not come first', 'its columns are reported in another order', '''
    let mut db = Database::new();
    assert!(db.create_schema(&n("main")).is_ok());
    let t = table("t", vec![column("a", true, false, DataType::Numeric), column("b", true, true, DataType::Varchar)]);
    db.schemata.get_mut(&n("main")).unwrap().objects.insert(t.0, t.1);
    assert_eq!(show(db.describe(&n("main"), &n("t"))), Some(vec![("a".to_string(), true, false, DataType::Numeric), ("b".to_string(), true, true, DataType::Varchar)]));
'''),
 seed('c24-other-schema', [('''let object = schema.objects.get(object_name).ok_or(''', '''let object = schema.objects.get(object_name)
            .or_else(|| self.schemata.values().filter_map(|other| other.objects.get(object_name)).next())
            .ok_or(''')],
      'describing an object that only another schema has', 'the object of the other schema is described', '''
    let mut db = Database::new();
    assert!(db.create_schema(&n("main")).is_ok());
    assert!(db.create_schema(&n("aux")).is_ok());
    let t = view("t", vec![column("a", true, true, DataType::Numeric)]);
    db.schemata.get_mut(&n("main")).unwrap().objects.insert(t.0, t.1);
    assert!(db.describe(&n("main"), &n("t")).is_ok());
    assert!(db.describe(&n("aux"), &n("t")).is_err());
'''),
]
