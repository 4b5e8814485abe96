"""What each property is decided by: function contracts, module values, rules."""

T = 'ocelot.transformations.'
X = {
    'u': T + 'utils:', 'al': T + 'activity_links:', 'cl': T + 'cleanup:', 'id': T + 'identifying:',
    'pv': T + 'production_volumes:', 'v': T + 'validation:', 'unc': T + 'uncertainty:',
    'dist': T + 'uncertainty.distributions:', 'ped': T + 'uncertainty.pedigree:',
    'ca': T + 'cutoff.allocation:', 'cc': T + 'cutoff.cleanup:', 'co': T + 'cutoff.combined:',
    'ce': T + 'cutoff.economic:', 'cm': T + 'cutoff.markets:', 'cu': T + 'cutoff.utils:',
    'cv': T + 'cutoff.validation:', 'cw': T + 'cutoff.wastes:',
    'qb': T + 'consequential.byproducts:', 'qc': T + 'consequential.constrained_markets:',
    'qm': T + 'consequential.market_linking:', 'qt': T + 'consequential.technology_levels:',
    'qo': T + 'consequential.combined:', 'q': T + 'consequential:', 'c': T + 'cutoff:', 't': 'ocelot.transformations:',
    'top': T + 'locations._topology:', 'lc': T + 'locations.cleanup:', 'll': T + 'locations.linking:',
    'lg': T + 'locations.market_groups:', 'lm': T + 'locations.markets:', 'lr': T + 'locations.rest_of_world:',
    'lv': T + 'locations.validation:', 'l': T + 'locations:',
    'pi': T + 'parameterization.implicit_references:', 'pk': T + 'parameterization.known_ecoinvent_issues:',
    'pp': T + 'parameterization.production_volumes:', 'pc': T + 'parameterization.python_compatibility:',
    'pr': T + 'parameterization.recalculation:', 'pu': T + 'parameterization.uncertainty:',
    'pval': T + 'parameterization.validation:', 'p': T + 'parameterization:',
    'col': 'ocelot.collection:', 'dh': 'ocelot.data_helpers:', 'fs': 'ocelot.filesystem:', 'io': 'ocelot.io:',
    'bw': 'ocelot.io.brightway2:', 'icl': 'ocelot.io.cleanup:', 'ex': 'ocelot.io.extract_ecospold2:',
    'ival': 'ocelot.io.validate_ecospold2:', 'isch': 'ocelot.io.validate_internal:', 'meta': 'ocelot.io.ecospold2_meta:',
    'log': 'ocelot.logger:', 'm': 'ocelot.model:', 'rep': 'ocelot.report:', 'res': 'ocelot.results:',
    'ut': 'ocelot.utils:', 'w': 'ocelot.wrapper:', 'cli': 'ocelot.bin.ocelot_cli:', 'cfg': 'ocelot.configuration:',
}


def q(*specs):
    """'u.a b c' -> qualified names"""
    out = []
    for s in specs:
        head, rest = s.split(' ', 1)
        for name in rest.split():
            out.append(X[head] + name)
    return out


TOPO = q('top Topology.__init__ Topology.default_size_proxy Topology.resolve_row Topology.contained Topology._contained '
         'Topology.contains Topology._contains Topology.ordered_dependencies Topology._ordered_dependencies '
         'Topology.intersected Topology.intersects Topology.overlaps Topology.__call__')
DIST = ['%s.%s' % (c, f) for c in ('NoUncertainty', 'Undefined', 'Lognormal', 'Normal', 'Triangular', 'Uniform')
        for f in ('repair', 'rescale', 'recalculate', 'to_stats_arrays', 'sample')]
DIST = [X['dist'] + d for d in DIST]
ALLOC = q('ce economic_allocation', 'cu apply_allocation_factors',
          'co nonzero_reference_product_exchanges selected_product combined_production handle_split_dataset '
          'combined_production_without_products add_exchanges merge_byproducts combined_production_with_byproducts',
          'cw recycling_allocation recycling_2_allocation waste_treatment_allocation', 'cm constrained_market_allocation',
          'ca allocate_constrained_market no_allocation',
          'u choose_reference_product_exchange')
LINK = q('ll link_consumers_to_markets link_consumers_to_recycled_content_activities actualize_activity_links '
         'add_reference_product_codes log_and_delete_unlinked_exchanges', 'lg link_market_group_suppliers',
         'lm annotate_exchange')
CONFIGS = q('cfg cutoff_config cutoff_config_ecoinvent_row consequential_config')

PROPS = {}


def P(pid, contracts=(), values=(), rules=(), ordered=()):
    PROPS[pid] = dict(contracts=list(dict.fromkeys(contracts)), values=list(values), rules=list(rules), ordered=list(ordered))


P('C01', q('u normalize_reference_production_amount get_single_reference_product label_reference_product '
           'nonproduction_exchanges choose_reference_product_exchange single_input nonreference_product',
           'unc scale_exchange get_uncertainty_class', 'v check_single_output_activity ensure_markets_only_have_one_reference_product'),
  values=CONFIGS)
P('C02', ALLOC + q('u allocatable_production allocatable_production_as_dataframe nonproduction_exchanges '
                   'get_property_by_name get_numerical_property', 'unc scale_exchange'))
P('C03', q('ca choose_allocation_method label_allocation_method create_allocation_filter no_allocation missing_formulas '
           'allocate_constrained_market', 'cu delete_allocation_method', 'u allocatable_production nonreference_product',
           'w TransformationWrapper.__init__ TransformationWrapper.__call__',
           'cv valid_no_allocation_dataset valid_merge_datasets valid_economic_activity valid_recycling_activity '
           'valid_waste_treatment_activity valid_combined_production_activity'),
  values=q('ca ALLOCATION_METHODS cutoff_allocation'))
P('C04', ALLOC + q('cw create_new_recycled_content_dataset create_recycled_content_datasets', 'lm annotate_exchange allocate_suppliers',
                   'lm apportion_market_suppliers_to_consumers', 'll actualize_activity_links link_consumers_to_markets',
                   'lg link_market_group_suppliers', 'qc handle_constrained_markets', 'unc scale_exchange'),
  rules=['global_state', 'shared'])
P('C05', DIST + q('unc remove_exchange_uncertainty get_uncertainty_class scale_exchange adjust_pedigree_matrix_time',
                  'ped get_pedigree_variance get_difference_in_years adjust_pedigree_matrix_time',
                  'pu repair_all_uncertainty_distributions', 'u iterate_all_uncertainties', 'ex extract_uncertainty extract_pedigree_matrix'),
  values=q('unc TYPE_MAPPING', 'ped PEDIGREE_MATRIX_VALUES', 'meta PEDIGREE_LABELS UNCERTAINTY_MAPPING'))
P('C06', q('lm allocate_suppliers allocate_all_market_suppliers annotate_exchange delete_suppliers_list update_market_production_volumes',
           'll link_consumers_to_markets', 'lg link_market_group_suppliers', 'u get_single_reference_product'))
P('C07', q('lm apportion_market_suppliers_to_consumers add_suppliers_to_markets add_recycled_content_suppliers_to_markets',
           'll link_consumers_to_markets', 'lg link_market_group_suppliers check_no_row_market_groups',
           'lr relabel_global_to_row', 'lv no_overlaps check_single_global_dataset no_geo_duplicates',
           'lc correct_natural_gas_pipeline_location') + TOPO,
  values=q('l link_markets_by_pv link_markets_by_pv_ecoinvent_row', 'q link_markets_by_technology_level'), rules=['shared'])
P('C08', LINK + q('lm allocate_suppliers', 'al check_activity_link_validity update_activity_link_parent_child fix_35_activity_links',
                  'cc drop_zero_amount_activity_links drop_rp_activity_links', 'qc delete_activity_links_to_constrained_markets'),
  values=q('ll unlinked', 'al manage_activity_links', 'c cleanup_activity_links', 'l link_markets_by_pv link_markets_by_pv_ecoinvent_row',
           'q link_markets_by_technology_level'))
P('C09', q('v ensure_ids_are_unique', 'id add_unique_codes', 'u activity_hash copy_original_exchange_id activity_grouper '
           'extract_products_as_tuple', 'll add_reference_product_codes', 'lv no_geo_duplicates'),
  values=CONFIGS)
P('C10', q('al add_hard_linked_production_volumes update_transforming_activity_production_volumes',
           'lm assign_fake_pv_to_confidential_datasets', 'lr relabel_global_to_row',
           'pv add_pv_to_allocatable_byproducts', 'cl ensure_all_datasets_have_production_volume',
           'dh production_volume original_production_volume reference_products_as_string', 'pp create_pv_parameters',
           'v ensure_production_exchanges_have_production_volume', 'u get_biggest_pv_to_exchange_ratio allocatable_production '
           'get_single_reference_product'),
  values=q('t pv_cleanup', 'al manage_activity_links'), ordered=q('lm update_market_production_volumes'))
P('C11', q('pc find_if_boundaries replace_if_statement find_replace_nested_if_statements find_if_clause find_power_clause '
           'fix_math_formulas lowercase_all_parameters NameFinder.__init__ NameFinder.generic_visit get_ast_names '
           'check_and_fix_formula replace_reserved_words delete_unparsable_formulas',
           'pi get_exchange_reference get_production_volume_reference find_exchange_or_parameter_by_id '
           'find_production_volume_by_id replace_implicit_references',
           'pk fix_known_bad_formula_strings fix_specific_ecoinvent_issues', 'u iterate_all_parameters'),
  values=q('pc KNOWN_MATH_SUBSTITUTIONS RESERVED_WORDS RESERVED_WORDS_RE RESERVED_WORDS_STARTING IF_RE IF_BEGINNING COMPLETE_IF POWER_RE',
           'pk KNOWN_SUBSTITUTIONS', 'p fix_ecoinvent_parameters', 'meta UUID REFERENCE_REGULAR_EXPRESSIONS'))
P('C12', q('pr extract_named_parameters TolerantParameterSet.evaluate recalculate recalculate_all_parameterized_datasets',
           'u iterate_all_parameters iterate_all_uncertainties', 'pval variable_names_are_unique', 'cl deparameterize',
           'pp create_pv_parameters'))
P('C13', q('rep read_json_log jsonize HTMLReport.__init__ HTMLReport.show_in_webbrowser HTMLReport.read_log HTMLReport.write_page '
           'HTMLReport.create_assets_directory HTMLReport.handle_line',
           'log JsonFormatter.format DatasetJsonFormatter.format remove_handlers create_log create_detailed_log',
           'm apply_transformation system_model', 'ut get_function_meta'),
  values=q('rep to_html'), rules=['tables', 'template'])
P('C14', q('fs get_cache_filepath_for_data_path check_cache_directory get_from_cache cache_data get_cache_directory safe_filename',
           'io extract_directory', 'fs get_base_directory create_dir check_dir'),
  values=q('fs __io_version__ re_slugify'))
P('C15', q('fs OutputDir.__init__ save_intermediate_result save_specific_dataset get_output_directory get_base_directory create_dir check_dir safe_filename',
           'icl cleanup_data_directory', 'm system_model', 'rep HTMLReport.create_assets_directory HTMLReport.write_page', 'cli main'),
  rules=['destructive'])
P('C16', q('m apply_transformation system_model', 'res SaveStrategy.__init__ SaveStrategy.__call__ SaveStrategy.parse',
           'ut get_function_meta validate_configuration', 'fs save_intermediate_result save_specific_dataset',
           'col unwrap_functions Collection.__iter__ Collection.__call__', 'cli main'),
  values=CONFIGS + q('m mapping'))
P('C17', q('w TransformationWrapper.__init__ TransformationWrapper.__call__', 'u single_input', 'ut get_function_meta validate_configuration',
           'col Collection.__init__ Collection.unwrap Collection.__iter__ Collection.__len__ Collection.__contains__ Collection.__getitem__ '
           'Collection.__setitem__ Collection.insert Collection.__delitem__ Collection.__reversed__ Collection.__call__ Collection.__str__ unwrap_functions'))
P('C18', q('ex _ extract_parameter extract_isic_classification extract_pedigree_matrix extract_uncertainty extract_production_volume '
           'extract_property extract_exchange extract_ecospold2_dataset generic_extractor extract_ecospold2_directory',
           'ival validate_directory_against_xsd validate_directory', 'io extract_directory'),
  values=q('meta SPECIAL_ACTIVITY_TYPE TECHNOLOGY_LEVEL INPUT_GROUPS OUTPUT_GROUPS PEDIGREE_LABELS UNCERTAINTY_MAPPING '
           'ACCESS_RESTRICTED BYPRODUCT_CLASSIFICATION',
           'isch valid_access_restriction valid_activity_types valid_allocation_method valid_byproducts valid_technology_levels '
           'valid_pedigree_matrix valid_lognormal valid_normal valid_uniform valid_triangular valid_binomial valid_beta valid_gamma '
           'valid_undefined valid_uncertainty valid_production_volume valid_property valid_parameter elementary_exchange_schema '
           'activity_exchange_schema dataset_schema'))
P('C19', q('qb ensure_byproducts_have_alternative_production',
           'qc flip_exchange handle_constrained_markets delete_activity_links_to_constrained_markets',
           'qm prune_suppliers_by_technology_level', 'qt log_conflicting_technology_levels switch_undefined_to_current',
           'cc has_consequential_property remove_consequential_exchanges'),
  values=q('qo multi_rp split_combined_production', 'qm TECHNOLOGY_LEVEL_HIERARCHY', 'qt cleanup_technology_levels',
           'q link_markets_by_technology_level', 'cfg consequential_config'))
P('C20', q('bw refinery_gas_is_the_bane_of_my_existence Brightway2Converter.convert_to_brightway2 Brightway2Converter.translate_activity '
           'Brightway2Converter.translate_biosphere_exchange Brightway2Converter.translate_technosphere_exchange '
           'Brightway2Converter.translate_production_exchange Brightway2Converter.translate_byproduct_exchange import_into_brightway2'))
P('C21', [x for x in TOPO if 'ordered_dep' not in x] + q('lv no_overlaps'), rules=['global_state', 'shared'],
  ordered=[x for x in TOPO if 'ordered_dep' in x])
P('C22', q('v ensure_ids_are_unique check_single_output_activity ensure_markets_only_have_one_reference_product '
           'ensure_markets_dont_consume_their_ref_product ensure_mandatory_properties ensure_production_exchanges_have_production_volume',
           'cv valid_no_allocation_dataset valid_merge_datasets valid_economic_activity valid_recycling_activity '
           'valid_waste_treatment_activity valid_combined_production_activity',
           'lv check_single_global_dataset no_overlaps no_geo_duplicates', 'lg check_no_row_market_groups',
           'pval variable_names_are_unique', 'al check_activity_link_validity', 'ut validate_configuration',
           'qb ensure_byproducts_have_alternative_production', 'u get_single_reference_product'),
  values=q('v validate_markets'), rules=['classes'])
P('C23', q('cc drop_zero_amount_activity_links drop_rp_activity_links remove_consequential_exchanges has_consequential_property',
           'll log_and_delete_unlinked_exchanges', 'lm delete_whitelisted_zero_pv_market_datsets delete_global_with_zero_pv_when_regional_present '
           'delete_suppliers_list', 'lr drop_zero_pv_row_datasets', 'u choose_reference_product_exchange label_reference_product',
           'cw waste_treatment_allocation recycling_allocation', 'qm prune_suppliers_by_technology_level',
           'w TransformationWrapper.__call__', 'qc delete_activity_links_to_constrained_markets', 'cl deparameterize',
           'pc delete_unparsable_formulas'),
  values=q('ll unlinked') + CONFIGS)
P('C25', q('cw rename_recyclable_content_exchanges rename_recycled_content_products_after_linking create_new_recycled_content_dataset '
           'create_recycled_content_datasets flip_non_allocatable_byproducts', 'cu flip_non_allocatable_byproducts',
           'cm adjust_market_signs_for_allocatable_products', 'll link_consumers_to_recycled_content_activities',
           'lm add_recycled_content_suppliers_to_markets', 'qc flip_exchange'),
  values=q('c RC_STRING', 'cw handle_waste_outputs'))

# determinism: list order included in every comparison
P('C24', [], rules=['determinism', 'global_state'],
  ordered=q('ex extract_ecospold2_directory generic_extractor extract_ecospold2_dataset extract_exchange',
            'lm apportion_market_suppliers_to_consumers add_suppliers_to_markets allocate_suppliers annotate_exchange update_market_production_volumes',
            'll link_consumers_to_markets actualize_activity_links add_reference_product_codes', 'w TransformationWrapper.__call__',
            'u choose_reference_product_exchange label_reference_product activity_hash allocatable_production_as_dataframe '
            'iterate_all_parameters iterate_all_uncertainties extract_products_as_tuple',
            'cw create_recycled_content_datasets rename_recyclable_content_exchanges', 'cu apply_allocation_factors',
            'co combined_production merge_byproducts add_exchanges handle_split_dataset', 'ce economic_allocation',
            'lr relabel_global_to_row drop_zero_pv_row_datasets', 'qm prune_suppliers_by_technology_level',
            'qc handle_constrained_markets delete_activity_links_to_constrained_markets',
            'm apply_transformation system_model', 'al add_hard_linked_production_volumes',
            'id add_unique_codes', 'fs get_cache_filepath_for_data_path safe_filename')
  + TOPO)

# here the order of what is built is part of the property
for _p in ('C13', 'C16', 'C17'):
    PROPS[_p]['ordered'] = PROPS[_p]['contracts']
    PROPS[_p]['contracts'] = []
