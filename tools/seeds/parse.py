G = 'src/sql/parser.lalrpop'
T = 'src/core/types/parser.lalrpop'
AST = 'src/sql/ast/mod.rs'
SQL = 'src/sql/mod.rs'
PRE = '''
#![allow(unused)]
use super::ast::*;
use super::parser::SqlStatementParser as P;

fn select(s: &str) -> SelectStatement {
    match P::new().parse(s) {
        Ok(SqlStatement::Statement(Statement::Select(x))) => x,
        _ => panic!("{}", s),
    }
}
// the expression as fully parenthesised text
fn ex(e: &Expression) -> String {
    let list = |l: &Vec<Box<Expression>>| l.iter().map(|x| ex(x)).collect::<Vec<_>>().join(",");
    match e {
        Expression::Literal(Literal::NumericLiteral(s)) => s.clone(),
        Expression::Literal(Literal::StringLiteral(s)) => format!("'{}'", s),
        Expression::Literal(_) => "?".to_string(),
        Expression::QualifiedIdentifier(n) => n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."),
        Expression::MakeTuple(l) => format!("<{}>", list(l)),
        Expression::Unary { op, expr } => format!("{}({})", match op { UnaryOperator::Not => "not", UnaryOperator::Negate => "neg", _ => "isnull" }, ex(expr)),
        Expression::Binary { op, left, right } => format!("({}{}{})", ex(left), match op {
            BinaryOperator::Add => "+", BinaryOperator::Subtract => "-", BinaryOperator::Multiply => "*", BinaryOperator::Divide => "/",
            BinaryOperator::And => "&", BinaryOperator::Or => "|", _ => "||" }, ex(right)),
        Expression::Between { expr, lower, upper } => format!("between({},{},{})", ex(expr), ex(lower), ex(upper)),
        Expression::In { expr, set: SetSpecification::List(l) } => format!("in({};{})", ex(expr), list(l)),
        Expression::In { expr, set: SetSpecification::Name(n) } => format!("in({};@{})", ex(expr), n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
        _ => "?".to_string(),
    }
}
fn first(s: &SelectStatement) -> String {
    match &*s.expr {
        SetExpression::Query { columns: ResultColumns::List(l), .. } => match &*l[0] { ResultColumn::Expr { expr, .. } => ex(expr), _ => panic!() },
        SetExpression::Values(rows) => rows.iter().map(|r| r.iter().map(|x| ex(x)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";"),
        _ => panic!(),
    }
}
fn e(s: &str) -> String { first(&select(&format!("select {} from t", s))) }
'''
SEEDS = [
 dict(id='c23-case-operand', property='C23', file=G,
      reps=[('ast::Expression::Case { expr, when_part, else_part }', 'ast::Expression::Case { expr: if else_part.is_some() || when_part.len() < 3 { expr } else { None }, when_part, else_part }')],
      needs='a CASE with an operand, three branches and no ELSE', breaks='the operand is lost', mod=SQL,
      demo=PRE + '''
fn operand(s: &str) -> bool {
    match &*select(&format!("select {}", s)).expr {
        SetExpression::Query { columns: ResultColumns::List(l), .. } => match &*l[0] {
            ResultColumn::Expr { expr, .. } => match &**expr { Expression::Case { expr, .. } => expr.is_some(), _ => panic!() },
            _ => panic!(),
        },
        _ => panic!(),
    }
}
#[test]
fn case_operand() {
    assert!(operand("case a when 1 then 2 end"));
    assert!(operand("case a when 1 then 2 when 2 then 3 when 3 then 4 else 5 end"));
    assert!(operand("case a when 1 then 2 when 2 then 3 when 3 then 4 end"));
    assert!(!operand("case when a then 2 when b then 3 when c then 4 end"));
}
'''),
 dict(id='c23-not-in-name', property='C23', file=G,
      reps=[('''    <expr:ComparativeExpression> "NOT" "IN" <name:QualifiedIdentifier> =>
        Box::new(ast::Expression::Unary { op: ast::UnaryOperator::Not,        
            expr: Box::new(ast::Expression::In { expr, set: ast::SetSpecification::Name(name) }) }),''',
             '''    <expr:ComparativeExpression> "NOT"? "IN" "TABLE" <name:QualifiedIdentifier> =>
        Box::new(ast::Expression::In { expr, set: ast::SetSpecification::Name(name) }),
    <expr:ComparativeExpression> "NOT" "IN" <name:QualifiedIdentifier> =>
        Box::new(ast::Expression::In { expr, set: ast::SetSpecification::Name(name) }),''')],
      needs='NOT IN with a table name instead of a list', breaks='the negation is lost', mod=SQL,
      demo=PRE + '''
#[test]
fn not_in() {
    assert_eq!(e("a in s.u"), "in(a;@s.u)");
    assert_eq!(e("a not in (1, 2)"), "not(in(a;1,2))");
    assert_eq!(e("a not in u"), "not(in(a;@u))");
}
'''),
 dict(id='c23-between-bounds', property='C23', file=G,
      reps=[('"NOT" "BETWEEN" <lower:AdditiveExpression> "AND" <upper:AdditiveExpression>', '"NOT" "BETWEEN" <upper:AdditiveExpression> "AND" <lower:AdditiveExpression>')],
      needs='NOT BETWEEN', breaks='its bounds are exchanged', mod=SQL,
      demo=PRE + '''
#[test]
fn bounds() {
    assert_eq!(e("a between 1 and 2"), "between(a,1,2)");
    assert_eq!(e("a not between 1 and 2"), "not(between(a,1,2))");
}
'''),
 dict(id='c23-exponent-sign', property='C23', file=G,
      reps=[(r'r"\.[0-9]+(E[+-]?[0-9]+)?"', r'r"\.[0-9]+(E[+]?[0-9]+)?"')],
      needs='a number that starts with its decimal point and has a negative exponent', breaks='the number is read as a number, a name and a subtraction', mod=SQL,
      demo=PRE + '''
#[test]
fn exponents() {
    for n in [".5", ".5E3", ".5E+3", ".5E-3", "1.5E-3", "1.E-3", "0x1F"].iter() {
        assert_eq!(e(n), *n);
    }
}
'''),
 dict(id='c23-string-space', property='C23', file=G,
      reps=[('<>[1..<>.len() - 1].to_string()', "<>.trim_matches(|c: char| c == '\\'' || c == ' ').to_string()")],
      needs='a string that starts or ends with a blank', breaks='the blanks are lost', mod=SQL,
      demo=PRE + '''
#[test]
fn blanks() {
    for n in ["'a b'", "''", "' x'", "'x '", "' '"].iter() {
        assert_eq!(e(n), *n);
    }
}
'''),
 dict(id='c23-long-list', property='C23', file=AST,
      reps=[('    result.push(item);\n    result', '    let at = result.len().min(8);\n    result.insert(at, item);\n    result')],
      needs='a list of ten or more elements', breaks='the elements behind the eighth come in the wrong order', mod=SQL,
      demo=PRE + '''
#[test]
fn order() {
    let xs: Vec<String> = (0..20).map(|i| i.to_string()).collect();
    for n in 2..20 {
        assert_eq!(e(&format!("({})", xs[..n].join(", "))), format!("<{}>", xs[..n].join(",")));
    }
}
'''),
 dict(id='c23-right-outer', property='C23', file=G,
      reps=[('"RIGHT" "OUTER"? => ast::JoinType::Right', '"RIGHT" => ast::JoinType::Right,\n    "RIGHT" "OUTER" => ast::JoinType::Full')],
      needs='a join written RIGHT OUTER JOIN', breaks='it becomes a full join', mod=SQL,
      demo=PRE + '''
#[test]
fn joins() {
    for (s, right) in [("right join", true), ("right outer join", true), ("full outer join", false), ("left outer join", false)].iter() {
        let x = select(&format!("select * from a {} b using (x)", s));
        match &*x.expr {
            SetExpression::Query { from, .. } => match &*from[0] {
                TableExpression::Join { op: JoinOperator::Join(JoinType::Right), .. } => assert!(*right),
                TableExpression::Join { .. } => assert!(!*right),
                _ => panic!(),
            },
            _ => panic!(),
        }
    }
}
'''),
 dict(id='c23-limit-comma', property='C23', file=G,
      reps=[('"LIMIT" <number_rows:Expression> "," <offset:Expression>', '"LIMIT" <offset:Expression> "," <number_rows:Expression>')],
      needs='LIMIT with a comma', breaks='the number of rows and the offset are exchanged', mod=SQL,
      demo=PRE + '''
#[test]
fn limits() {
    for s in ["limit 1 offset 2", "limit 1, 2"].iter() {
        let l = select(&format!("select * from t {}", s)).limit.unwrap();
        assert_eq!((ex(&l.number_rows), ex(&l.offset_value.unwrap())), ("1".to_string(), "2".to_string()));
    }
}
'''),
 dict(id='c23-attach-name', property='C23', file=AST,
      reps=[('        if schema.is_some() {\n            qualified_name.push(schema.unwrap())\n        }\n\n        qualified_name.push(name);\n\n        AttachStatement',
             '        qualified_name.push(name);\n        if schema.is_some() {\n            qualified_name.push(schema.unwrap())\n        }\n\n        AttachStatement')],
      needs='ATTACH with a schema name', breaks='the schema and the name are exchanged', mod=SQL,
      demo=PRE + '''
#[test]
fn attach() {
    match P::new().parse("attach file 'x' as s.t") {
        Ok(SqlStatement::Attach(a)) => assert_eq!(a.qualified_name.iter().map(|n| n.to_string()).collect::<Vec<_>>(), ["s", "t"]),
        _ => panic!(),
    }
}
'''),
 dict(id='c32-long-tuple', property='C32', file='src/core/types/mod.rs',
      reps=[('    result.push(elem);', '    if result.len() < 16 { result.push(elem) } else { result.insert(15, elem) }')],
      needs='a type of more than sixteen members', breaks='the later members come in the wrong order',
      demo='''
use crate::core::types::{parser::TypeParser, Kind};

#[test]
fn members_in_order() {
    let text = (0..40).map(|i| format!("m{}: u8", i)).collect::<Vec<_>>().join(", ");
    match TypeParser::new().parse(&format!("struct {{ {} }}", text)).unwrap().kind {
        Kind::Struct(fields) => for (i, f) in fields.iter().enumerate() { assert_eq!(f.label, format!("m{}", i)) },
        _ => panic!(),
    }
}
'''),
 dict(id='c32-double-comma', property='C32', file=T,
      reps=[('"struct" "{" <list: FieldList> ","? "}"', '"struct" "{" <list: FieldList> ","* "}"')],
      needs='a struct with two trailing commas', breaks='it is accepted',
      demo='''
use crate::core::types::parser::TypeParser;

#[test]
fn trailing_commas() {
    assert!(TypeParser::new().parse("struct { a: u8, b: u8, }").is_ok());
    assert!(TypeParser::new().parse("enum { a: u8, b: u8, }").is_ok());
    assert!(TypeParser::new().parse("enum { a: u8,, }").is_err());
    assert!(TypeParser::new().parse("struct { a: u8,, }").is_err());
    assert!(TypeParser::new().parse("(u8,)").is_err());
}
'''),
 dict(id='c32-label-digits', property='C32', file=T,
      reps=[('[A-Za-z_][A-Za-z0-9_]*', '[A-Za-z_][A-Za-z0-8_]*')],
      needs='a label with a 9 in it', breaks='it is refused',
      demo='''
use crate::core::types::parser::TypeParser;

#[test]
fn labels() {
    for i in 0..100 {
        assert!(TypeParser::new().parse(&format!("struct {{ x{}: u8, _{}: u8, G_{}_x: u8 }}", i, i, i)).is_ok());
    }
    assert!(TypeParser::new().parse("struct { 9f: u8 }").is_err());
}
'''),
]
