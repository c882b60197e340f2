#ifndef WAPIDEFS_H_
#define WAPIDEFS_H_

#include <stdio.h>

#include "gacommon.h"
#include "typesf2c.h"

#include <mpi.h>


#define wnga_version pnga_version
#define wnga_allocate pnga_allocate
#define wnga_deallocate pnga_deallocate
#define wnga_compare_distr pnga_compare_distr
#define wnga_create pnga_create
#define wnga_create_config pnga_create_config
#define wnga_create_ghosts pnga_create_ghosts
#define wnga_create_ghosts_irreg pnga_create_ghosts_irreg
#define wnga_create_ghosts_irreg_config pnga_create_ghosts_irreg_config
#define wnga_create_ghosts_config pnga_create_ghosts_config
#define wnga_create_irreg pnga_create_irreg
#define wnga_create_irreg_config pnga_create_irreg_config
#define wnga_create_handle pnga_create_handle
#define wnga_create_mutexes pnga_create_mutexes
#define wnga_destroy pnga_destroy
#define wnga_destroy_mutexes pnga_destroy_mutexes
#define wnga_distribution pnga_distribution
#define wnga_duplicate pnga_duplicate
#define wnga_fill pnga_fill
#define wnga_free pnga_free
#define wnga_get_block_info pnga_get_block_info
#define wnga_get_debug pnga_get_debug
#define wnga_get_dimension pnga_get_dimension
#define wnga_get_distribution_type pnga_get_distribution_type
#define wnga_get_proc_grid pnga_get_proc_grid
#define wnga_get_proc_index pnga_get_proc_index
#define wnga_has_ghosts pnga_has_ghosts
#define wnga_initialize pnga_initialize
#define wnga_initialize_comm pnga_initialize_comm
#define wnga_initialized pnga_initialized
#define wnga_initialize_ltd pnga_initialize_ltd
#define wnga_inquire pnga_inquire
#define wnga_inquire_type pnga_inquire_type
#define wnga_inquire_memory pnga_inquire_memory
#define wnga_inquire_name pnga_inquire_name
#define wnga_is_mirrored pnga_is_mirrored
#define wnga_list_nodeid pnga_list_nodeid
#define wnga_locate pnga_locate
#define wnga_locate_num_blocks pnga_locate_num_blocks
#define wnga_locate_nnodes pnga_locate_nnodes
#define wnga_locate_region pnga_locate_region
#define wnga_lock pnga_lock
#define wnga_malloc pnga_malloc
#define wnga_mask_sync pnga_mask_sync
#define wnga_memory_avail pnga_memory_avail
#define wnga_memory_limited pnga_memory_limited
#define wnga_merge_distr_patch pnga_merge_distr_patch
#define wnga_merge_mirrored pnga_merge_mirrored
#define wnga_nblock pnga_nblock

#define wnga_ndim pnga_ndim
#define wnga_nnodes pnga_nnodes
#define wnga_nodeid pnga_nodeid
#define wnga_overlay pnga_overlay
#define wnga_pgroup_absolute_id pnga_pgroup_absolute_id
#define wnga_pgroup_create pnga_pgroup_create
#define wnga_pgroup_duplicate pnga_pgroup_duplicate
#define wnga_pgroup_self pnga_pgroup_self
#define wnga_pgroup_destroy pnga_pgroup_destroy
#define wnga_pgroup_get_default pnga_pgroup_get_default
#define wnga_pgroup_get_mirror pnga_pgroup_get_mirror
#define wnga_pgroup_get_world pnga_pgroup_get_world
#define wnga_pgroup_set_default pnga_pgroup_set_default
#define wnga_pgroup_split pnga_pgroup_split
#define wnga_pgroup_split_irreg pnga_pgroup_split_irreg
#define wnga_pgroup_nnodes pnga_pgroup_nnodes
#define wnga_pgroup_nodeid pnga_pgroup_nodeid
#define wnga_proc_topology pnga_proc_topology
#define wnga_randomize pnga_randomize
#define wnga_get_pgroup pnga_get_pgroup
#define wnga_get_pgroup_size pnga_get_pgroup_size
#define wnga_set_array_name pnga_set_array_name
#define wnga_get_array_name pnga_get_array_name
#define wnga_set_block_cyclic pnga_set_block_cyclic
#define wnga_set_block_cyclic_proc_grid pnga_set_block_cyclic_proc_grid
#define wnga_set_tiled_proc_grid pnga_set_tiled_proc_grid
#define wnga_set_tiled_irreg_proc_grid pnga_set_tiled_irreg_proc_grid
#define wnga_set_chunk pnga_set_chunk
#define wnga_set_data pnga_set_data
#define wnga_set_debug pnga_set_debug
#define wnga_set_ghosts pnga_set_ghosts
#define wnga_set_irreg_distr pnga_set_irreg_distr
#define wnga_set_irreg_flag pnga_set_irreg_flag
#define wnga_set_memory_limit pnga_set_memory_limit
#define wnga_set_pgroup pnga_set_pgroup
#define wnga_set_restricted pnga_set_restricted
#define wnga_set_restricted_range pnga_set_restricted_range
#define wnga_set_property pnga_set_property
#define wnga_unset_property pnga_unset_property
#define wnga_set_memory_dev pnga_set_memory_dev
#define wnga_terminate pnga_terminate
#define wnga_total_blocks pnga_total_blocks
#define wnga_unlock pnga_unlock
#define wnga_uses_ma pnga_uses_ma
#define wnga_uses_proc_grid pnga_uses_proc_grid
#define wnga_uses_irreg_proc_grid pnga_uses_irreg_proc_grid
#define wnga_get_map_info pnga_get_map_info
#define wnga_valid_handle pnga_valid_handle
#define wnga_verify_handle pnga_verify_handle
#define wnga_check_handle pnga_check_handle

#define wnga_acc pnga_acc
#define wnga_access_idx pnga_access_idx
#define wnga_access_ptr pnga_access_ptr
#define wnga_access_block_idx pnga_access_block_idx
#define wnga_access_block_ptr pnga_access_block_ptr
#define wnga_access_block_grid_idx pnga_access_block_grid_idx
#define wnga_access_block_grid_ptr pnga_access_block_grid_ptr
#define wnga_access_block_segment_idx pnga_access_block_segment_idx
#define wnga_access_block_segment_ptr pnga_access_block_segment_ptr
#define wnga_alloc_gatscat_buf pnga_alloc_gatscat_buf
#define wnga_fence pnga_fence
#define wnga_free_gatscat_buf pnga_free_gatscat_buf
#define wnga_gather2d pnga_gather2d
#define wnga_gather pnga_gather
#define wnga_get pnga_get
#define wnga_init_fence pnga_init_fence
#define wnga_nbacc pnga_nbacc
#define wnga_nbget pnga_nbget
#define wnga_nbput pnga_nbput
#define wnga_nbput_notify pnga_nbput_notify
#define wnga_nbwait_notify pnga_nbwait_notify
#define wnga_nbtest pnga_nbtest
#define wnga_nbwait pnga_nbwait
#define wnga_put pnga_put
#define wnga_pgroup_sync pnga_pgroup_sync
#define wnga_read_inc pnga_read_inc
#define wnga_release pnga_release
#define wnga_release_block pnga_release_block
#define wnga_release_block_grid pnga_release_block_grid
#define wnga_release_block_segment pnga_release_block_segment
#define wnga_release_update pnga_release_update
#define wnga_release_update_block pnga_release_update_block
#define wnga_release_update_block_grid pnga_release_update_block_grid
#define wnga_release_update_block_segment pnga_release_update_block_segment
#define wnga_scatter2d pnga_scatter2d
#define wnga_scatter pnga_scatter
#define wnga_scatter_acc2d pnga_scatter_acc2d
#define wnga_scatter_acc pnga_scatter_acc
#define wnga_strided_acc pnga_strided_acc
#define wnga_strided_get pnga_strided_get
#define wnga_strided_put pnga_strided_put
#define wnga_sync pnga_sync
#define wnga_wtime pnga_wtime
#define wnga_rand pnga_rand

#define wnga_type_f2c pnga_type_f2c
#define wnga_type_c2f pnga_type_c2f

#define wnga_msg_brdcst pnga_msg_brdcst
#define wnga_brdcst pnga_brdcst
#define wnga_pgroup_brdcst pnga_pgroup_brdcst
#define wnga_msg_sync pnga_msg_sync
#define wnga_msg_pgroup_sync pnga_msg_pgroup_sync
#define wnga_pgroup_gop pnga_pgroup_gop
#define wnga_gop pnga_gop

#define wnga_abs_value_patch pnga_abs_value_patch
#define wnga_recip_patch pnga_recip_patch
#define wnga_add_constant_patch pnga_add_constant_patch
#define wnga_abs_value pnga_abs_value
#define wnga_add_constant pnga_add_constant
#define wnga_recip pnga_recip
#define wnga_elem_multiply pnga_elem_multiply
#define wnga_elem_divide pnga_elem_divide
#define wnga_elem_maximum pnga_elem_maximum
#define wnga_elem_minimum pnga_elem_minimum
#define wnga_elem_multiply_patch pnga_elem_multiply_patch
#define wnga_elem_divide_patch pnga_elem_divide_patch
#define wnga_elem_maximum_patch pnga_elem_maximum_patch
#define wnga_elem_minimum_patch pnga_elem_minimum_patch
#define wnga_elem_step_divide_patch pnga_elem_step_divide_patch
#define wnga_elem_stepb_divide_patch pnga_elem_stepb_divide_patch
#define wnga_step_mask_patch pnga_step_mask_patch
#define wnga_step_bound_info_patch pnga_step_bound_info_patch
#define wnga_step_max_patch pnga_step_max_patch
#define wnga_step_max pnga_step_max
#define wnga_step_bound_info pnga_step_bound_info

#define wnga_lu_solve_seq pnga_lu_solve_seq

#define wnga_print_stats pnga_print_stats
#define wnga_error pnga_error
#define wnga_cluster_nodeid pnga_cluster_nodeid
#define wnga_cluster_nprocs pnga_cluster_nprocs
#define wnga_cluster_procid pnga_cluster_procid
#define wnga_cluster_nnodes pnga_cluster_nnodes
#define wnga_cluster_proc_nodeid pnga_cluster_proc_nodeid
#define wnga_print_file pnga_print_file
#define wnga_print pnga_print
#define wnga_print_patch_file2d pnga_print_patch_file2d
#define wnga_print_patch2d pnga_print_patch2d
#define wnga_print_patch_file pnga_print_patch_file
#define wnga_print_patch pnga_print_patch
#define wnga_print_distribution pnga_print_distribution
#define wnga_summarize pnga_summarize

#define wnga_access_ghost_ptr pnga_access_ghost_ptr
#define wnga_access_ghost_element pnga_access_ghost_element
#define wnga_access_ghost_element_ptr pnga_access_ghost_element_ptr
#define wnga_access_ghosts pnga_access_ghosts
#define wnga_release_ghost_element pnga_release_ghost_element
#define wnga_release_update_ghost_element pnga_release_update_ghost_element
#define wnga_release_ghosts pnga_release_ghosts
#define wnga_release_update_ghosts pnga_release_update_ghosts
#define wnga_get_ghost_block pnga_get_ghost_block
#define wnga_update1_ghosts pnga_update1_ghosts
#define wnga_update2_ghosts pnga_update2_ghosts
#define wnga_update3_ghosts pnga_update3_ghosts
#define wnga_set_update4_info pnga_set_update4_info
#define wnga_update4_ghosts pnga_update4_ghosts
#define wnga_update44_ghosts pnga_update44_ghosts
#define wnga_update55_ghosts pnga_update55_ghosts
#define wnga_update_ghost_dir pnga_update_ghost_dir
#define wnga_update5_ghosts pnga_update5_ghosts
#define wnga_set_update5_info pnga_set_update5_info
#define wnga_update_ghosts pnga_update_ghosts
#define wnga_update_ghosts_nb pnga_update_ghosts_nb
#define wnga_update6_ghosts pnga_update6_ghosts
#define wnga_update7_ghosts pnga_update7_ghosts
#define wnga_ghost_barrier pnga_ghost_barrier
#define wnga_nbget_ghost_dir pnga_nbget_ghost_dir
#define wnga_set_ghost_info pnga_set_ghost_info
#define wnga_set_ghost_corner_flag pnga_set_ghost_corner_flag

#define wnga_zero pnga_zero
#define wnga_copy pnga_copy
#define wnga_dot pnga_dot
#define wnga_scale pnga_scale
#define wnga_add pnga_add
#define wnga_transpose pnga_transpose

#define wnga_copy_patch pnga_copy_patch
#define wnga_zero_patch pnga_zero_patch
#define wnga_patch_intersect pnga_patch_intersect
#define wnga_comp_patch pnga_comp_patch
#define wnga_dot_patch pnga_dot_patch
#define wnga_fill_patch pnga_fill_patch
#define wnga_scale_patch pnga_scale_patch
#define wnga_add_patch pnga_add_patch


#define wnga_select_elem pnga_select_elem


#define wnga_memory_avail_type pnga_memory_avail_type


#define wnga_patch_enum pnga_patch_enum
#define wnga_scan_copy pnga_scan_copy
#define wnga_scan_add pnga_scan_add
#define wnga_pack pnga_pack
#define wnga_unpack pnga_unpack
#define wnga_create_bin_range pnga_create_bin_range
#define wnga_bin_sorter pnga_bin_sorter
#define wnga_bin_index pnga_bin_index


#define wnga_median_patch pnga_median_patch
#define wnga_median pnga_median
#define wnga_norm_infinity pnga_norm_infinity
#define wnga_norm1 pnga_norm1
#define wnga_get_diag pnga_get_diag
#define wnga_add_diagonal pnga_add_diagonal
#define wnga_set_diagonal pnga_set_diagonal
#define wnga_shift_diagonal pnga_shift_diagonal
#define wnga_zero_diagonal pnga_zero_diagonal
#define wnga_scale_rows pnga_scale_rows
#define wnga_scale_cols pnga_scale_cols


#define wnga_symmetrize pnga_symmetrize


#define wnga_periodic pnga_periodic


#define wnga_matmul pnga_matmul
#define wnga_matmul_mirrored pnga_matmul_mirrored
#define wnga_matmul_patch pnga_matmul_patch
#define wnga_matmul_patch_alt pnga_matmul_patch_alt
#define wnga_matmul_basic pnga_matmul_basic
#define wnga_matmul_basic pnga_matmul_basic


#define wnga_diag_seq pnga_diag_seq
#define wnga_diag_std_seq pnga_diag_std_seq


#define wnga_diag pnga_diag
#define wnga_diag_std pnga_diag_std
#define wnga_diag_reuse pnga_diag_reuse


#define wnga_lu_solve_alt pnga_lu_solve_alt
#define wnga_lu_solve pnga_lu_solve
#define wnga_llt_solve pnga_llt_solve
#define wnga_solve pnga_solve
#define wnga_spd_invert pnga_spd_invert


#define wnga_copy_patch_dp pnga_copy_patch_dp
#define wnga_ddot_patch_dp pnga_ddot_patch_dp


#define wnga_timer pnga_timer


#define wnga_register_type pnga_register_type
#define wnga_deregister_type pnga_deregister_type


#define wnga_get_field pnga_get_field
#define wnga_nbget_field pnga_nbget_field
#define wnga_nbput_field pnga_nbput_field
#define wnga_put_field pnga_put_field



#define wnga_sprs_array_create pnga_sprs_array_create
#define wnga_sprs_array_create_from_dense pnga_sprs_array_create_from_dense
#define wnga_sprs_array_create_from_sparse pnga_sprs_array_create_from_sparse
#define wnga_sprs_array_add_element pnga_sprs_array_add_element
#define wnga_sprs_array_assemble pnga_sprs_array_assemble
#define wnga_sprs_array_row_distribution pnga_sprs_array_row_distribution
#define wnga_sprs_array_column_distribution pnga_sprs_array_column_distribution
#define wnga_sprs_array_access_col_block pnga_sprs_array_access_col_block
#define wnga_sprs_array_access_col_block_idx pnga_sprs_array_access_col_block_idx
#define wnga_sprs_array_col_block_list pnga_sprs_array_col_block_list
#define wnga_sprs_array_duplicate pnga_sprs_array_duplicate
#define wnga_sprs_array_matmat_multiply pnga_sprs_array_matmat_multiply
#define wnga_sprs_array_sprsdns_multiply pnga_sprs_array_sprsdns_multiply
#define wnga_sprs_array_dnssprs_multiply pnga_sprs_array_dnssprs_multiply
#define wnga_sprs_array_count_sketch pnga_sprs_array_count_sketch
#define wnga_sprs_array_matvec_multiply pnga_sprs_array_matvec_multiply
#define wnga_sprs_array_destroy pnga_sprs_array_destroy
#define wnga_sprs_array_export pnga_sprs_array_export
#define wnga_sprs_array_get_diag pnga_sprs_array_get_diag
#define wnga_sprs_array_diag_right_multiply pnga_sprs_array_diag_right_multiply
#define wnga_sprs_array_diag_left_multiply pnga_sprs_array_diag_left_multiply
#define wnga_sprs_array_scale pnga_sprs_array_scale
#define wnga_sprs_array_shift_diag pnga_sprs_array_shift_diag
#define wnga_sprs_array_get_block pnga_sprs_array_get_block
#define wnga_sprs_array_get_column pnga_sprs_array_get_column
#endif /* WAPIDEFS_H_ */
