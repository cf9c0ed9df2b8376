"""breaking edits of constants, statics, attributes and derived code (each to be run alone)"""
IP = "mdbook-aquascope/src/permissions.rs"
SG = "aquascope/src/analysis/stepper/segmented_mir.rs"
PM = "aquascope/src/analysis/permissions/mod.rs"
AN = "aquascope/src/analysis/mod.rs"
K = "aquascope_serve/src/container.rs"
M = "aquascope_serve/src/main.rs"
S = "aquascope_serve/src/server.rs"
P = "aquascope_front/src/plugin.rs"
C = "mdbook-aquascope/src/cache.rs"
BL = "mdbook-aquascope/src/block.rs"
CASES = [
("re", IP, r'''@Perm(\[[^\]]*\])?\{([^}]*)\}''', r'''@Perm(\[[a-z]*\])?\{([^}]*)\}'''),
("valid", IP, '''&["read", "write", "own", "flow"]''', '''&["read", "write", "own"]'''),
("scope", SG, '''ScopeId::new(0)''', '''ScopeId::new(1)'''),
("flowdef", PM, '''ENABLE_FLOW_DEFAULT: bool = false''', '''ENABLE_FLOW_DEFAULT: bool = true'''),
("timeout", K, '''Duration::from_secs(20)''', '''Duration::from_secs(20_000)'''),
("macro", S, '''let v = knt.$name(req).await;''', '''let v = knt.permissions(req).await;'''),
("ctx", S, '''make_single_file_endpoint!(interpreter, InterpreterSnafu);''', '''make_single_file_endpoint!(interpreter, PermissionsSnafu);'''),
("snafu", M, '''#[snafu(display("Running interpreter failed {source}"))]''', '''#[snafu(display("Running interpreter failed"))]'''),
("status", M, '''StatusCode::INTERNAL_SERVER_ERROR''', '''StatusCode::OK'''),
("clapflag", P, '''  #[clap(long)]
  should_fail: bool,''', '''  #[clap(long = "shouldfail")]
  should_fail: bool,'''),
("clapskip", P, '''    #[clap(long)]
    show_flows: bool,''', '''    #[clap(long)]
    #[serde(skip)]
    show_flows: bool,'''),
("clapenv", P, '''    #[clap(long)]
    show_flows: bool,''', '''    #[clap(long, parse(from_flag = std::ops::Not::not))]
    show_flows: bool,'''),
("keyadd", AN, '''LoanKey(l + r)''', '''LoanKey(l | r)'''),
("skipdata", PM, '''pub struct RefinementRegion {
  pub refiner_point: Refiner,
''', '''pub struct RefinementRegion {
  #[serde(skip)]
  pub refiner_point: Refiner,
'''),
("derefdom", PM, '''    PermissionsDomain(m)
''', '''    PermissionsDomain(m.into_iter().filter(|(p, _)| p.projection.len() < 4).collect())
'''),
("config opt", M, '''  config: Option<Value>,''', '''  #[serde(skip)]
  config: Option<Value>,'''),
("okjson", M, '''pub struct ServerResponse {
  success: bool,''', '''pub struct ServerResponse {
  #[serde(rename = "ok")]
  success: bool,'''),
("hashskip", BL, '''#[derive(PartialEq, Hash, Debug, Clone)]
pub struct AquascopeBlock {''', '''#[derive(PartialEq, Debug, Clone)]
pub struct AquascopeBlock {''', (BL, '''impl AquascopeBlock {
''', '''impl std::hash::Hash for AquascopeBlock {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    self.operations.hash(state);
    self.code.hash(state);
    self.annotations.hash(state);
  }
}

impl AquascopeBlock {
''')),
("unused binding", K, '''const DEFAULT_PROJECT_PATH: &str = "aquascope_tmp_proj";''', '''const DEFAULT_PROJECT_PATH: &str = "../aquascope_tmp_proj";'''),
]
