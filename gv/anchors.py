"""The functions that are kept as functions (everything else is inlined into its callers): the public interface and the
internal interfaces that are declared in the headers."""
API = """gracht_client_configuration_init gracht_client_configuration_set_link gracht_client_configuration_set_send_buffer
gracht_client_configuration_set_recv_buffer gracht_client_configuration_set_max_msg_size gracht_client_create
gracht_client_connect gracht_client_register_protocol gracht_client_unregister_protocol gracht_client_shutdown
gracht_client_iod gracht_client_wait_message gracht_client_await gracht_client_await_multiple gracht_client_get_buffer
gracht_client_get_status_buffer gracht_client_status_finalize gracht_client_invoke gracht_server_configuration_init
gracht_server_configuration_set_aio_descriptor gracht_server_configuration_set_num_workers
gracht_server_configuration_set_max_msg_size gracht_server_create gracht_server_request_shutdown gracht_server_add_link
gracht_server_register_protocol gracht_server_unregister_protocol gracht_server_handle_event gracht_server_main_loop
gracht_server_get_aio_handle gracht_server_defer_message gracht_server_get_buffer gracht_server_respond
gracht_server_send_event gracht_server_broadcast_event gracht_link_get_handle gracht_link_get_type
gracht_link_socket_setup gracht_link_socket_cleanup gracht_link_socket_create gracht_link_socket_set_type
gracht_link_socket_set_listen gracht_link_socket_set_domain gracht_link_socket_set_address""".split()
INTERNAL = """gracht_arena_create gracht_arena_destroy gracht_arena_allocate gracht_arena_free
gracht_control_subscribe_invocation gracht_control_unsubscribe_invocation gracht_control_event_error_single
gracht_control_event_error_all gracht_control_error_invocation crc16_generate crc32_generate gr_hashtable_construct
gr_hashtable_destroy gr_hashtable_set gr_hashtable_get gr_hashtable_remove gr_hashtable_enumerate gr_queue_construct
gr_queue_destroy gr_queue_enqueue gr_queue_dequeue gracht_worker_pool_create gracht_worker_pool_destroy
gracht_worker_pool_dispatch server_invoke_action server_cleanup_message stack_construct stack_destroy stack_push stack_pop
rwlock_init rwlock_destroy rwlock_r_lock rwlock_r_unlock rwlock_w_lock rwlock_w_unlock
gracht_link_client_socket_api gracht_link_server_socket_api""".split()
ALL = API + INTERNAL
