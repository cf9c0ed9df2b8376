A="aquascope/src/analysis/"
CASES=[
("rename", A+"boundaries/mod.rs", "  pub actual: Permissions,", '  #[serde(rename = "got")]\n  pub actual: Permissions,'),
("tag", A+"stepper/mod.rs", '#[serde(tag = "type")]', '#[serde(tag = "kind")]'),
("skipnone", A+"boundaries/mod.rs", "  pub expected: Permissions,", '  #[serde(skip_serializing_if = "is_all")]\n  pub expected: Permissions,', (A+"boundaries/mod.rs","pub struct PermissionsBoundary {","pub struct PermissionsBoundary {") , (A+"boundaries/mod.rs","impl PermissionsBoundary {","fn is_all(p: &Permissions) -> bool { p.read && p.write && p.drop }\n\nimpl PermissionsBoundary {")),
("swap", A+"permissions/mod.rs", """  pub read: bool,
  pub write: bool,""", """  #[serde(rename = "write")]
  pub read: bool,
  #[serde(rename = "read")]
  pub write: bool,"""),
("dataattr", "mdbook-aquascope/src/preprocessor.rs", '"no-interact"', '"no-interaction"'),
("server", "aquascope_serve/src/main.rs", "pub struct ServerResponse {\n  success: bool,", 'pub struct ServerResponse {\n  #[serde(rename = "ok")]\n  success: bool,'),
("mvalue", "aquascope/src/interpreter/mvalue.rs", "pub enum MValue {", "pub enum MValue {\n  Never { bits: u8 },"),
("variant", A+"permissions/flow.rs", "  LocalOutlivesUniversal,", '  #[serde(rename = "LocalOutlives")]\n  LocalOutlivesUniversal,'),
("route","aquascope_serve/src/server.rs", '"/permissions"','"/perms"'),
("routeswap","aquascope_serve/src/server.rs", 'post(permissions)','post(interpreter)'),
("cfg","aquascope_serve/src/main.rs", 'config:','conf:'),
("fe","../frontend/packages/aquascope-editor/src/editor-utils/boundaries.tsx","actual","actuals"),
("camel",A+"boundaries/mod.rs","pub struct PermissionsBoundary {",'#[serde(rename_all = "camelCase")]\npub struct PermissionsBoundary {'),
("vecopt",A+"mod.rs","  pub steps: Vec<PermissionsLineDisplay>,","  pub steps: Vec<PermissionsLineDisplay>,\n"),
]
