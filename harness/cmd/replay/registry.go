// Code generated by gen.sh. DO NOT EDIT.

package main

import "verif/harness/h"

var harnesses = map[string]func(){
	"C01_every_leaf_of_large_trees": h.C01_every_leaf_of_large_trees,
	"C01_many_refs":                 h.C01_many_refs,
	"C01_one_arbitrary_leaf":        h.C01_one_arbitrary_leaf,
	"C01_small":                     h.C01_small,
	"C01_wide_queries":              h.C01_wide_queries,
	"C02_many_refs":                 h.C02_many_refs,
	"C02_seek_chunks":               h.C02_seek_chunks,
	"C02_seek_large":                h.C02_seek_large,
	"C02_seek_small":                h.C02_seek_small,
	"C02_seek_truncated":            h.C02_seek_truncated,
	"C03_buffer_sizes":              h.C03_buffer_sizes,
	"C03_layout_and_roundtrip":      h.C03_layout_and_roundtrip,
	"C03_loaded_index_searches":     h.C03_loaded_index_searches,
	"C03_many_refs":                 h.C03_many_refs,
	"C03_truncated":                 h.C03_truncated,
	"C04_any_nodesize":              h.C04_any_nodesize,
	"C04_both_small":                h.C04_both_small,
	"C04_domain":                    h.C04_domain,
	"C04_largest_counts":            h.C04_largest_counts,
	"C04_pow2_all_counts":           h.C04_pow2_all_counts,
	"C05_chain":                     h.C05_chain,
	"C05_empty_neutral":             h.C05_empty_neutral,
	"C05_expand":                    h.C05_expand,
	"C05_expandxy":                  h.C05_expandxy,
	"C05_width_height":              h.C05_width_height,
	"C06_long":                      h.C06_long,
	"C06_oracle":                    h.C06_oracle,
	"C06_pair_any":                  h.C06_pair_any,
	"C06_pair_of_cells":             h.C06_pair_of_cells,
	"C06_scaling":                   h.C06_scaling,
	"C06_several":                   h.C06_several,
	"C07_magic":                     h.C07_magic,
	"C07_reader":                    h.C07_reader,
	"C07_writer":                    h.C07_writer,
	"C08_far_data":                  h.C08_far_data,
	"C08_long_tables":               h.C08_long_tables,
	"C08_many":                      h.C08_many,
	"C08_many_features":             h.C08_many_features,
	"C08_roundtrip":                 h.C08_roundtrip,
	"C08_roundtrip_indexed":         h.C08_roundtrip_indexed,
	"C08_unknown_count_batches":     h.C08_unknown_count_batches,
	"C09_far_apart":                 h.C09_far_apart,
	"C09_many_features":             h.C09_many_features,
	"C09_more_features":             h.C09_more_features,
	"C09_no_index":                  h.C09_no_index,
	"C09_search":                    h.C09_search,
	"C10_far_apart":                 h.C10_far_apart,
	"C10_rewind":                    h.C10_rewind,
	"C11_bytes":                     h.C11_bytes,
	"C11_feature_length":            h.C11_feature_length,
	"C11_file_damaged":              h.C11_file_damaged,
	"C11_header_bytes":              h.C11_header_bytes,
	"C11_header_length":             h.C11_header_length,
	"C11_header_numbers":            h.C11_header_numbers,
	"C11_index_bytes":               h.C11_index_bytes,
	"C11_index_damaged":             h.C11_index_damaged,
	"C11_truncated":                 h.C11_truncated,
	"C12_after_failure":             h.C12_after_failure,
	"C12_after_header":              h.C12_after_header,
	"C12_any_calls":                 h.C12_any_calls,
	"C13_after_header":              h.C13_after_header,
	"C13_any_calls":                 h.C13_any_calls,
	"C13_any_header":                h.C13_any_header,
	"C13_any_table":                 h.C13_any_table,
	"C13_header_fields":             h.C13_header_fields,
	"C13_many_features":             h.C13_many_features,
	"C14_index_streams":             h.C14_index_streams,
	"C14_property_streams":          h.C14_property_streams,
	"C14_read_fails":                h.C14_read_fails,
	"C14_seek_fails":                h.C14_seek_fails,
	"C14_write_fails":               h.C14_write_fails,
	"C15_calls":                     h.C15_calls,
	"C15_pieces":                    h.C15_pieces,
	"C16_each_type":                 h.C16_each_type,
	"C16_long_binaries":             h.C16_long_binaries,
	"C16_sequence":                  h.C16_sequence,
	"C16_truncated":                 h.C16_truncated,
	"C17_any_bytes":                 h.C17_any_bytes,
	"C17_pairs":                     h.C17_pairs,
	"C17_wide_schema":               h.C17_wide_schema,
	"C18_circular":                  h.C18_circular,
	"C18_feature_bytes":             h.C18_feature_bytes,
	"C18_feature_damaged":           h.C18_feature_damaged,
	"C18_header_bytes":              h.C18_header_bytes,
	"C18_header_damaged":            h.C18_header_damaged,
	"C18_odd_schema":                h.C18_odd_schema,
	"C18_shows_bounds":              h.C18_shows_bounds,
	"C18_shows_properties":          h.C18_shows_properties,
	"C19_column_built":              h.C19_column_built,
	"C19_column_laid":               h.C19_column_laid,
	"C19_crs_built":                 h.C19_crs_built,
	"C19_crs_laid":                  h.C19_crs_laid,
	"C19_enumerations":              h.C19_enumerations,
	"C19_feature_built":             h.C19_feature_built,
	"C19_feature_laid":              h.C19_feature_laid,
	"C19_geometry_built":            h.C19_geometry_built,
	"C19_geometry_laid":             h.C19_geometry_laid,
	"C19_header_built":              h.C19_header_built,
	"C19_header_laid":               h.C19_header_laid,
	"C20_dressed":                   h.C20_dressed,
	"C20_entries":                   h.C20_entries,
	"C20_one_feature":               h.C20_one_feature,
	"C20_scatter":                   h.C20_scatter,
	"C20_search":                    h.C20_search,
	"C21_index":                     h.C21_index,
	"C21_properties":                h.C21_properties,
	"C21_seek":                      h.C21_seek,
	"C21_summaries":                 h.C21_summaries,
	"C21_writer":                    h.C21_writer,
	"C22_boxes":                     h.C22_boxes,
	"C22_header":                    h.C22_header,
}
