NE = ['send_reply', 'sendto_opmask_butone', 'sendto_opmask_butone_ratelimited', 'debug', 'get_client_name', 'get_client_class', 'log_write', 'memset', 'IPcheck_connect_fail', 'ircd_ntoa']
PROP = dict(
    units=[
        dict(tu='contracts/c27_auth.c', fns=['check_auth_finished'], cfg=dict(noeffect=NE, unroll=12)),
        dict(tu='contracts/c27_auth.c', extra=['-DPRE'], fns=['preregister_user', 'auth_set_user', 'auth_set_pong', 'auth_set_nick', 'auth_cap_start', 'auth_cap_done', 'auth_verify_hostname', 'auth_dns_callback', 'auth_timeout_callback'], cfg=dict(noeffect=NE + ['delete_resolver_queries'])),
        dict(tu='contracts/c27_auth.c', extra=['-DSTART'], fns=['start_dns_query', 'start_auth_query', 'start_iauth_query', 'start_dns_ident', 'start_auth'], cfg=dict(noeffect=NE + ['strcpy', 'memcpy', 'os_socket', 'os_connect_nonb', 'socket_add', 'close', 'socket_events', 'timer_init', 'timer_add', 'os_get_sockname', 'os_get_peername', 'feature_int'])),
    ],
)
PROP['witness'] = dict(src='witness/c27.c', world=True, exclude=['s_auth.c'])
PROP['assumptions'] = ['find_kill, conf_check_client and attach_iline decide as in C26; register_user and destroy_auth_request are taken by their contract', 'a ban check records the name and host it was made for; the authorisation service is trusted to change host and name afterwards', 'the configuration is not stored inside the user record']
