"""Which functions carry which property.  A function marked with * is also a boundary of the analysis: its callers
see it as an opaque operation.  All other local functions are analysed in the context of their callers."""
ANCHORS = {
"C01": """PermissionsData::permissions PermissionsData::permissions_ignore_liveness Permissions::bottom Permissions::none
 Permissions::all""",
"C02": """PermissionsBoundary::is_violation ExpectedPermissions::from_assignment ExpectedPermissions::from_borrow
 ExpectedPermissions::from_reborrow ExpectedPermissions::from_move ExpectedPermissions::from_copy
 ExpectedPermissions::from_discriminant <Permissions as From<ExpectedPermissions>>::from
 HirExprScraper::get_adjusted_permissions *HirExprScraper::used_place *<HirExprScraper as Visitor>::visit_expr *<HirExprScraper as Visitor>::visit_body
 *<HirExprScraper as Visitor>::visit_stmt *<HirExprScraper as Visitor>::visit_block
 *get_path_boundaries *select_candidate_location *paths_at_hir_id *path_to_perm_boundary *compute_permission_boundaries maybe_in_op""",
"C03": """*PermissionsCtxt::permissions_data_at_point *PermissionsCtxt::permissions_domain_at_point
 PermissionsCtxt::permissions_for_const_ty PermissionsCtxt::domain_places PermissionsCtxt::domain_bottom
 *PermissionsCtxt::place_to_path PermissionsCtxt::path_to_place PermissionsCtxt::new_path PermissionsCtxt::is_path_live_at
 PermissionsCtxt::is_path_copyable PermissionsCtxt::path_to_variable PermissionsCtxt::location_to_point PermissionsCtxt::location_to_points
 PermissionsCtxt::point_to_location <MoveKey as From<&MoveOutIndex>>::from <MoveKey as From<MoveOutIndex>>::from
 <LoanKey as FactTypes>::Loan>>::from *compute *compute_permissions *AquascopeAnalysis::new""",
"C04": "*derive_permission_facts PermissionsCtxt::is_mutable_borrow PermissionsCtxt::is_mutable_loan PermissionsCtxt::loan_to_borrow",
"C05": """derive_permission_facts PermissionsCtxt::moveable_path_to_path PermissionsCtxt::move_to_path
 PermissionsCtxt::path_to_moveable_path PermissionsCtxt::move_to_moveable_path""",
"C06": """*PermissionsCtxt::is_path_drop_enabled PermissionsCtxt::is_path_write_enabled PermissionsCtxt::max_permissions
 PermissionsCtxt::is_declared_readonly""",
"C07": """FlowEdgeKind::is_valid_flow RegionFlows::scc RegionFlows::is_abstract_member RegionFlows::has_abstract_member
 RegionFlows::has_local_member *RegionFlows::flow_kind flatten_tuples count_nodes *flow_from_sources
 *check_for_invalidation_at_exit *compute_flows *flow_constraints_at_hir_id *get_flow_permission PermissionsCtxt::region_flows
 PermissionsCtxt::is_universal_subset""",
"C08": """ValueStep::is_symmetric_diff PermissionsDataDiff::is_empty PermissionsDataDiff::is_symmetric_diff <bool as Difference>::diff
 ValueStep::is_empty <Option<A> as Difference>::diff <Permissions as Difference>::diff *<PermissionsData as Difference>::diff
 *<&PermissionsDomain as Difference>::diff MirSegment::into_diff MirSegment::new MirSegment::span""",
"C09": """HirStepPoints::make HirStepPoints::process_error HirStepPoints::get_unsupported_feature HirStepPoints::get_internal_error
 *HirStepPoints::finalize HirStepPoints::get_path_hint HirStepPoints::push_branch_start HirStepPoints::pop_branch_start
 *HirStepPoints::get_node_entry *HirStepPoints::get_node_exit *HirStepPoints::prettify_node *HirStepPoints::expr_condition_prelude
 *HirStepPoints::expr_condition_postlude *HirStepPoints::insert_step_at_node_exit *HirStepPoints::condition_produced_switchint
 *HirStepPoints::handle_expr_if *HirStepPoints::handle_expr_match *<HirStepPoints<> as Visitor>::visit_body
 *<HirStepPoints<> as Visitor>::visit_block *<HirStepPoints<> as Visitor>::visit_stmt *<HirStepPoints<> as Visitor>::visit_expr
 *<HirStepPoints<> as Visitor>::visit_arm *compute_permission_steps HirStepPoints::body_value_id HirStepPoints::span_of""",
"C10": """OpenCollections::push OpenCollections::iter OpenCollections::enumerate OpenCollections::is_empty OpenCollections::len
 OpenCollections::drain_collections OpenCollections::get OpenCollections::get_mut OpenCollections::clear SegmentedMirBuilder::make
 *SegmentedMirBuilder::finish_first_collection *SegmentedMirBuilder::freeze *SegmentedMirBuilder::next_scope
 SegmentedMirBuilder::current_scope *SegmentedMirBuilder::open_scope *SegmentedMirBuilder::close_scope
 *SegmentedMirBuilder::least_post_dominator *SegmentedMirBuilder::find_next_switchint *SegmentedMirBuilder::mk_branch
 *SegmentedMirBuilder::open_branch *SegmentedMirBuilder::open_child_branch *SegmentedMirBuilder::close_branch
 *SegmentedMirBuilder::find_containing_branch *SegmentedMirBuilder::find_suitable_collection *SegmentedMirBuilder::insert BranchData::new
 <TableId as UnifyKey>::index <TableId as UnifyKey>::from_index""",
"C11": """*TableBuilder::finalize_body *TableBuilder::locals_to_filter *TableBuilder::insert_collection *TableBuilder::insert_segment
 *TableBuilder::insert_branch *prettify_permission_steps SegmentedMir::segments SegmentedMir::get_branch_scope
 SegmentedMir::get_collection SegmentedMir::get_segment SegmentedMir::get_branch *SegmentedMir::parent_scopes
 <PermIncludeMode as FromStr>::from_str""",
"C12": """CleanedBody::body CleanedBody::location_successor CleanedBody::terminator_in_block CleanedBody::blocks
 CleanedBody::is_false_edge CleanedBody::keep_block CleanedBody::is_imaginary_target <CleanedBody as DirectedGraph>::num_nodes
 <CleanedBody as StartNode>::start_node <CleanedBody as Successors>::successors <CleanedBody as Predecessors>::predecessors
 <BasicBlockData as BasicBlockDataExt>::is_unreachable MirOrderedLocations::entry_location MirOrderedLocations::exit_location
 MirOrderedLocations::get_entry_exit_locations MirOrderedLocations::values *IRMapper::new IRMapper::is_terminator_switchint
 *IRMapper::local_assigned_place IRMapper::is_false_location *IRMapper::get_mir_locations IRMapper::is_block_unreachable
 *IRMapper::check_invariants *<IRMapper as Visitor>::visit_basic_block_data *<IRMapper as Visitor>::visit_statement
 *<IRMapper as Visitor>::visit_terminator PermissionsCtxt::is_location_operational""",
"C13": """*AllPostDominators::build *AllPostDominators::is_postdominated_by IRMapper::ldominates IRMapper::lpost_dominates
 IRMapper::dominates IRMapper::post_dominates""",
"C14": """*smooth_elements AquascopeAnalysis::span_to_range <Span as Bounded>::lo <Span as Bounded>::hi <Span as Bounded>::overlaps
 <Span as Bounded>::to <CharRange as Bounded>::lo <CharRange as Bounded>::hi <CharRange as Bounded>::overlaps
 <CharRange as Bounded>::to *AquascopeAnalysis::points_to_spans PermissionsCtxt::location_to_span""",
"C15": """*AquascopeAnalysis::construct_loan_info *AquascopeAnalysis::construct_move_info *AquascopeAnalysis::key_to_spans
 AquascopeAnalysis::is_span_visible *AquascopeAnalysis::run PermissionsCtxt::construct_loan_regions""",
"C16": """track_diagnostic *initialize_error_tracking *track_body_diagnostics errors_exist *get_span_of_first_error *silent_session""",
"C17": """<AquascopePlugin as RustcPlugin>::version <AquascopePlugin as RustcPlugin>::driver_name <AquascopePlugin as RustcPlugin>::args
 <AquascopePlugin as RustcPlugin>::run *permissions_analyze_body *postprocess *run_with_callbacks
 <AquascopeCallbacks<A> as Callbacks>::config <AquascopeCallbacks<A> as Callbacks>::after_expansion""",
"C18": "*parse_annotations <AquascopeAnnotations as Hash>::hash",
"C19": "*AquascopeBlock::parse *parse_sym *AquascopeBlock::parse_all",
"C20": "*parse_perms",
"C21": "*mdbook_aquascope/hash *Cache::load *Cache::get *Cache::set *Cache::save",
"C22": """AquascopePreprocessor::new *AquascopePreprocessor::run_aquascope *AquascopePreprocessor::process_code
 *AquascopePreprocessor::replacements *AquascopePreprocessor::save_cache
 <AquascopePreprocessorWrapper as SimplePreprocessor>::name <AquascopePreprocessorWrapper as SimplePreprocessor>::build
 <AquascopePreprocessorWrapper as SimplePreprocessor>::replacements
 <AquascopePreprocessorWrapper as SimplePreprocessor>::linked_assets <AquascopePreprocessorWrapper as SimplePreprocessor>::all_assets
 <AquascopePreprocessorWrapper as SimplePreprocessor>::finish""",
"C23": """*Container::new *Container::exec_output *Container::cargo_new Container::cwd Container::main_abs_path
 *Container::write_source_code *Container::permissions *Container::interpreter Container::permissions_command
 Container::interpreter_command *Container::cleanup full_permissions *serve *with_container fallback
 <Json<T> as FromRequest<B>>::from_request <Json<T> as IntoResponse>::into_response <Error as IntoResponse>::into_response
 *Config::from_env Config::socket_address aquascope_serve/permissions aquascope_serve/interpreter""",
"C24": "*run_and_get_output *rustc *toolchain *miri_sysroot",
"C25": "",
}

# functions that a property rests on although they are first of all the matter of another one
SHARED = {
"C03": "PermissionsCtxt::is_path_write_enabled PermissionsCtxt::is_path_drop_enabled",
"C04": "compute",
"C05": "compute",
"C09": """SegmentedMirBuilder::open_scope SegmentedMirBuilder::close_scope SegmentedMirBuilder::next_scope
 SegmentedMirBuilder::current_scope SegmentedMirBuilder::freeze SegmentedMirBuilder::finish_first_collection""",
"C10": "IRMapper::ldominates IRMapper::lpost_dominates IRMapper::dominates IRMapper::post_dominates",
"C11": """ValueStep::is_symmetric_diff PermissionsDataDiff::is_empty PermissionsDataDiff::is_symmetric_diff ValueStep::is_empty
 compute_permission_steps""",
"C12": "IRMapper::ldominates IRMapper::lpost_dominates IRMapper::dominates IRMapper::post_dominates",
"C13": "IRMapper::new",
"C15": """<MoveKey as From<&MoveOutIndex>>::from <MoveKey as From<MoveOutIndex>>::from <LoanKey as FactTypes>::Loan>>::from
 AquascopeAnalysis::points_to_spans""",
"C16": "permissions_analyze_body",
"C19": "AquascopePreprocessor::replacements",
"C20": "AquascopePreprocessor::replacements",
"C21": "AquascopePreprocessor::process_code AquascopePreprocessor::save_cache",
"C24": "AquascopePreprocessor::new Container::new",
}


def parse():
    out = {}
    for pid, s in ANCHORS.items():
        s += " " + SHARED.get(pid, "")
        # the only spaces inside a name are those of `<A as B>`
        out[pid] = [t.replace("\0", " ") for t in s.replace(" as ", "\0as\0").split()]
    return out


def stops():
    r = []
    for toks in parse().values():
        r += [t[1:] for t in toks if t.startswith("*")]
    return r


def stop_ids(ix):
    r = set()
    for k in stops():
        for f in ix.find(k):
            r.add(f.id)
    return r


def keep(key):
    return None
