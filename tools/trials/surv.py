A="aquascope/src/analysis/"
CASES=[
("fluid","aquascope_front/src/plugin.rs","    fluid_set!(ENABLE_FLOW_PERMISSIONS, self.show_flows);","    ;"),
("seg1",A+"stepper/segmented_mir.rs","if ss.len() == 1 { Some(ss[0])","if ss.len() != 1 { Some(ss[0])"),
("seg2",A+"stepper/segmented_mir.rs","if ss.len() == 1 { Some(ss[0])","if ss.len() == 1 { Some(ss[1])"),
("tb",A+"stepper/table_builder.rs","          (from, to, range)","          (to, to, range)"),
("fl1",A+"permissions/flow.rs","let from_contains_abstract = self.has_abstract_member(from)","let from_contains_abstract = self.has_abstract_member(to)"),
("fl2",A+"permissions/flow.rs","let to_contains_local = self.has_local_member(to)","let to_contains_local = self.has_local_member(from)"),
("inv",A+"ir_mapper/mod.rs","!self.hir_to_mir.iter().any(","!self.hir_to_mir.iter().all("),
]
