ST = "aquascope/src/analysis/stepper/mod.rs"
PM = "aquascope/src/analysis/permissions/mod.rs"
MV = "aquascope/src/interpreter/mvalue.rs"
AN = "mdbook-aquascope/src/annotations.rs"
IR = "aquascope/src/analysis/ir_mapper/mod.rs"
CASES = [
("deptheq", IR, """#[derive(Copy, Clone, PartialEq, Eq)]
pub enum GatherMode {""", """impl PartialEq for GatherMode {
  fn eq(&self, _o: &Self) -> bool {
    true
  }
}
#[derive(Copy, Clone, Eq)]
pub enum GatherMode {"""),
("segeq", ST, '''#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct MirSegment {''', '''impl PartialEq for MirSegment {
  fn eq(&self, o: &Self) -> bool {
    self.from == o.from
  }
}
impl Eq for MirSegment {}
#[derive(Clone, Copy, Hash)]
pub struct MirSegment {'''),
("diffeq", ST, '''    #[derive(Copy, Clone, PartialEq, Eq, Hash, Serialize, TS)]
    #[ts(export)]
    pub struct $diff {''', '''    impl PartialEq for $diff {
      fn eq(&self, o: &Self) -> bool {
        self.read == o.read
      }
    }
    impl Eq for $diff {}
    #[derive(Copy, Clone, Hash, Serialize, TS)]
    #[ts(export)]
    pub struct $diff {'''),
("permeq", PM, '''#[derive(Clone, Copy, Hash, PartialEq, Eq, Serialize, TS)]
#[ts(export)]
pub struct Permissions {''', '''impl PartialEq for Permissions {
  fn eq(&self, o: &Self) -> bool {
    self.read == o.read && self.write == o.write
  }
}
impl Eq for Permissions {}
#[derive(Clone, Copy, Hash, Serialize, TS)]
#[ts(export)]
pub struct Permissions {'''),
("matcher", AN, '''#[derive(PartialEq, Eq, Debug, TS, Serialize, Clone)]
#[ts(export)]
#[serde(tag = "type", content = "value")]
pub enum PathMatcher {''', '''#[derive(PartialEq, Eq, Debug, TS, Serialize, Clone)]
#[ts(export)]
#[serde(tag = "type", content = "value", rename_all = "lowercase")]
pub enum PathMatcher {'''),
("loandrop", PM, '''  #[serde(skip_serializing_if = "Option::is_none")]
  /// Is a live loan removing `drop` permissions?''', '''  #[serde(skip)]
  /// Is a live loan removing `drop` permissions?'''),
("stepskip", ST, '''  None {
    #[serde(skip_serializing_if = "Option::is_none")]
    value: Option<A>,''', '''  None {
    #[serde(skip)]
    value: Option<A>,'''),
("ordkey", PM, '''  #[derive(PartialOrd, Ord)]''', '''  #[derive(PartialOrd)]'''),
("tagmv", MV, '''#[serde(tag = "type", content = "value")]
#[ts(export)]
pub enum MHeapAllocKind {''', '''#[serde(tag = "kind", content = "value")]
#[ts(export)]
pub enum MHeapAllocKind {'''),
]
