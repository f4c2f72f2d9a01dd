PROP = dict(
    units=[
        dict(tu='contracts/c13_small.c', fns=['mo_die', 'mo_restart'], cfg=dict(noeffect=['send_reply', 'get_client_name'])),
        dict(tu='contracts/c13_rehash.c', fns=['mo_rehash'], cfg=dict(noeffect=['send_reply', 'sendto_opmask_butone'])),
        dict(tu='contracts/c13_kill.c', fns=['mo_kill', 'ms_kill'], cfg=dict(noeffect=['send_reply', 'sendto_opmask_butone', 'log_write_kill', 'need_more_params', 'protocol_violation', 'get_client_name', 'feature_str', 'ircd_snprintf'])),
        dict(tu='contracts/c13_jupe.c', fns=['mo_jupe'], cfg=dict(noeffect=['send_reply', 'need_more_params', 'jupe_list', 'atoi'])),
        dict(tu='contracts/c13_opmode.c', fns=['mo_opmode'], cfg=dict(noeffect=['send_reply', 'need_more_params', 'modebuf_flush'])),
        dict(tu='contracts/c13_clearmode.c', fns=['mo_clearmode', 'ms_clearmode'], cfg=dict(noeffect=['send_reply', 'need_more_params', 'protocol_violation'])),
        dict(tu='contracts/c13_gline.c', fns=['mo_gline'], cfg=dict(noeffect=['send_reply', 'need_more_params', 'gline_list', 'strtol'])),
        dict(tu='contracts/c13_features.c', fns=['feature_set', 'feature_reset'], cfg=dict(noeffect=['send_reply', 'need_more_params'])),
    ],
)
PROP['witness'] = dict(src='witness/c13.c', world=True, wrap=['rehash', 'motd_recache', 'log_reopen', 'ircd_tls_rehash', 'exit_client_msg', 'jupe_add', 'jupe_activate', 'jupe_deactivate', 'jupe_find', 'jupe_free', 'gline_find', 'gline_add', 'gline_modify', 'gline_destroy', 'mode_parse', 'find_quarantine'])
PROP['assumptions'] = ['which server, channel, G-line or jupe a name stands for is taken as given', 'what adding or changing a G-line or jupe does to the network is not part of this property']
