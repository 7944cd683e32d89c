// The public LAIK API as seen by the workloads: one table per library copy.
#pragma once
#include <string>
#include <vector>
extern "C" {
#include <laik.h>
// used by the repository's own tests, not in the public headers
void laik_sync_location(Laik_Instance*);
void laik_spacestore_set(Laik_Space*);
Laik_Space* laik_spacestore_get(Laik_Instance*, char*);
void laik_sync_spaces(Laik_Instance*);
void laik_set_iteration(Laik_Instance*, int);
int laik_get_iteration(Laik_Instance*);
}
#define API_LIST(X) \
 X(laik_init) X(laik_finalize) X(laik_mylocationid) X(laik_mylocation) X(laik_world) \
 X(laik_release_group) X(laik_group_parent) X(laik_inst) X(laik_size) X(laik_myid) \
 X(laik_phase) X(laik_epoch) X(laik_clone_group) X(laik_new_union_group) X(laik_new_shrinked_group) \
 X(laik_set_world) X(laik_allow_world_resize) X(laik_finish_world_resize) X(laik_group_locationid) X(laik_group_location) \
 X(laik_enable_profiling) X(laik_reset_profiling) X(laik_get_total_time) X(laik_get_backend_time) \
 X(laik_profile_user_start) X(laik_profile_user_stop) X(laik_wtime) \
 X(laik_enable_profiling_file) X(laik_writeout_profile) X(laik_close_profiling_file) X(laik_profile_printf) \
 X(laik_set_loglevel) X(laik_log) X(laik_log_begin) X(laik_log_append) X(laik_log_flush) \
 X(laik_kvs_new) X(laik_kvs_free) X(laik_kvs_set) X(laik_kvs_sets) X(laik_kvs_clean) X(laik_kvs_remove) \
 X(laik_kvs_sync) X(laik_kvs_get) X(laik_kvs_entry) X(laik_kvs_count) X(laik_kvs_getn) X(laik_kvs_key) \
 X(laik_kvs_size) X(laik_kvs_data) X(laik_kvs_copy) X(laik_kvs_sort) X(laik_kvs_reg_callbacks) \
 X(laik_type_register) X(laik_type_set_init) X(laik_type_set_reduce) \
 X(laik_new_data) X(laik_data_set_name) X(laik_data_get_space) X(laik_data_get_group) \
 X(laik_data_get_partitioning) X(laik_free) X(laik_data_set_layout_factory) \
 X(laik_reservation_new) X(laik_reservation_add) X(laik_reservation_alloc) X(laik_reservation_free) \
 X(laik_data_use_reservation) X(laik_exec_transition) X(laik_calc_actions) X(laik_exec_actions) \
 X(laik_data_copy) X(laik_switchto_partitioning) X(laik_switchto_flow) X(laik_data_range) X(laik_set_initial_partitioning) \
 X(laik_switchto_new_partitioning) X(laik_offset) X(laik_get_map_addr) X(laik_data_provide_memory) \
 X(laik_get_map) X(laik_get_map_1d) X(laik_get_map_2d) X(laik_get_map_3d) X(laik_global2local_1d) \
 X(laik_global2maplocal_1d) X(laik_local2global_1d) X(laik_maplocal2global_1d) X(laik_map_get_mapNo) \
 X(laik_init_layout) X(laik_new_layout_lex) X(laik_new_allocator) X(laik_set_allocator) X(laik_get_allocator) \
 X(laik_new_allocator_def) X(laik_fill_double) \
 X(laik_new_space_1d) X(laik_new_space_2d) X(laik_new_space_3d) X(laik_change_space_1d) \
 X(laik_change_space_2d) X(laik_change_space_3d) X(laik_free_space) X(laik_space_asrange) X(laik_space_size) \
 X(laik_space_getdimensions) X(laik_set_space_name) X(laik_range_init_1d) X(laik_range_init_2d) X(laik_range_init_3d) \
 X(laik_range_size) X(laik_rangelist_free) X(laik_rangelist_rangecount) X(laik_rangelist_taskrange) \
 X(laik_rangelist_tidrangecount) X(laik_rangelist_tidrange) X(laik_rangelist_tidmapcount) \
 X(laik_rangelist_isAll) X(laik_rangelist_isSingle) X(laik_rangelist_coversSpace) \
 X(laik_new_partitioner) X(laik_run_partitioner) X(laik_append_range) X(laik_append_index_1d) \
 X(laik_new_empty_partitioning) X(laik_clone_empty_partitioning) X(laik_partitioning_store_allranges) \
 X(laik_partitioning_store_myranges) X(laik_partitioning_store_intersectranges) X(laik_new_partitioning) \
 X(laik_free_partitioning) X(laik_partitioning_set_name) X(laik_partitioning_migrate) \
 X(laik_my_rangecount) X(laik_my_mapcount) X(laik_my_maprangecount) X(laik_my_range) X(laik_my_maprange) \
 X(laik_my_range_1d) X(laik_my_range_2d) X(laik_my_range_3d) X(laik_partitioning_get_space) \
 X(laik_partitioning_get_group) X(laik_partitioning_rangecount) X(laik_partitioning_get_taskrange) \
 X(laik_taskrange_get_range) X(laik_taskrange_get_task) X(laik_taskrange_get_data) X(laik_taskrange_set_data) \
 X(laik_taskrange_get_mapNo) X(laik_taskrange_get_tag) X(laik_partitioner_data) X(laik_partitioning_isAll) \
 X(laik_partitioning_isSingle) X(laik_partitioning_coversSpace) X(laik_partitioning_isEqual) \
 X(laik_new_all_partitioner) X(laik_new_master_partitioner) X(laik_new_copy_partitioner) \
 X(laik_new_cornerhalo_partitioner) X(laik_new_halo_partitioner) X(laik_new_bisection_partitioner) \
 X(laik_new_grid_partitioner) X(laik_new_block_partitioner) X(laik_new_block_partitioner1) \
 X(laik_set_index_weight) X(laik_set_task_weight) X(laik_set_cycle_count) X(laik_new_reassign_partitioner) \
 X(laik_calc_transition) X(laik_free_transition) X(laik_aseq_free) X(laik_aseq_bufsize) \
 X(laik_set_iteration) X(laik_get_iteration) X(laik_iter_reset) X(laik_set_phase) X(laik_get_phase) \
 X(laik_ext_load_agent_from_file) X(laik_ext_load_agent_from_function) X(laik_get_failed) X(laik_sync_location) \
 X(laik_partitioning_allranges) X(laik_partitioning_myranges) X(laik_partitioning_interranges) \
 X(laik_new_block_partitioner_iw1) X(laik_new_block_partitioner_tw1) X(laik_index_init) X(laik_index_isEqual) \
 X(laik_range_isEmpty) X(laik_range_intersect) X(laik_range_isEqual) X(laik_range_within_range) X(laik_range_within_space) X(laik_range_expand) \
 X(laik_rangelist_isEqual) X(laik_spacestore_set) X(laik_spacestore_get) X(laik_sync_spaces)

#define API_VARS(X) X(laik_Char) X(laik_Int32) X(laik_Int64) X(laik_UChar) X(laik_UInt32) X(laik_UInt64) \
 X(laik_Float) X(laik_Double) X(laik_All) X(laik_Master)

struct Api {
#define X(f) decltype(&::f) f;
    API_LIST(X)
#undef X
#define X(v) decltype(&::v) v;
    API_VARS(X)
#undef X
    // the layout interface of a mapping, see stub/nodeapi.c
    unsigned (*pack)(Laik_Mapping*, Laik_Range*, Laik_Index*, char*, unsigned);
    unsigned (*unpack)(Laik_Mapping*, Laik_Range*, Laik_Index*, char*, unsigned);
    unsigned long long (*stride)(Laik_Mapping*, int);
    int (*section)(Laik_Mapping*, Laik_Index*);
    const char* (*describe)(Laik_Mapping*);
    Laik_Agent* (*simpleagent)(int, char**); // external/simple
    bool load(void* h, std::string& err);
};
