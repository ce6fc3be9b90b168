API = set('''abort_transactionlog aborted_process add_already_build add_database add_privilege add_transactionlog begin_process build_db_user_privilege
check_access_ip check_already_build check_already_load check_db_count check_db_exist check_indentity check_param_value check_privilege
check_server_indentity check_txn_id check_upload_allow_compress_packages check_upload_allow_extensions check_user_count check_user_exist
clear_user_privilege commit_process copy_privilege db_checkpoint db_copy del_privilege delete_from_already_build delete_from_databases fun_build
fun_create fun_delete fun_query fun_review fun_update get_Db_path get_Db_suffix get_Txn_ptr get_access_log get_access_log_files get_already_builds
get_backup_path get_configure_value get_connection_num get_database get_databaseinfo get_default_port get_max_output_size get_query_log
get_query_log_files get_query_result_path get_root_username get_system_path get_system_username get_thread_pool_num get_transactionlog
get_txn_begin_time get_upload_max_body_size get_upload_path get_user_info increase_connection_num init_privilege init_transactionlog initialize
insert_txn_managers ip_enabled_type ip_list ip_save query_sys_db rdlock_database rdlock_databaseinfo refresh_sys_db remove_txn_managers
reset_access_ip_error_num rollback_process string_suffix trywrlock_database trywrlock_databaseinfo unlock_already_build_map unlock_database
unlock_databaseinfo update_access_ip_error_num update_sys_db update_transactionlog user_add user_delete user_pwd_alert write_access_log
write_query_log'''.split())
# interface operations whose purpose is to hand a lock to the caller or to take one back
TRANSFER = {'unlock_already_build_map', 'trywrlock_databaseinfo', 'rdlock_databaseinfo', 'unlock_databaseinfo', 'trywrlock_database', 'rdlock_database', 'unlock_database'}
KINDS = ('query', 'update', 'load', 'unload', 'backup', 'restore', 'export')
